package main

import (
	"fmt"
	"io/fs"
	"strconv"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C03", Quick: 60000, Thorough: 3000000,
		Rule:       "A run draws a valid program and a way to spoil it: one of ~230 ways to leave the language (undeclared, doubly declared or wrongly called names, dynamic conditions and indices, unbalanced brackets, foreign characters, truncation, stray tokens, unsupported operators, endless recursion, ...) planted at a random place, a random token or bracket mutation (a text whose brackets do not match or that has tokens beside each other which no program has must be refused, whatever else it says), or imports over a simulated disk that are missing, unreadable, torn by a crash, lost, cyclic, damaged or replaced while being read. Several clients compile the spoilt and the valid text at the same time and after each other under a random schedule. What leaves the language must reach its caller as a panic; everything else must give what the complete, textually inlined program gives when compiled alone; valid programs must compile as alone throughout; no task and no process may be lost. Non-trivial: a spoilt text or a faulty import was refused while another session compiled.",
		Real:       []string{"circuitcompiler: lexer, parser, compiler, constraint generation", "utils: field, ordered map"},
		Stub:       []string{"goroutine scheduler, channels, map iteration order, file system (simulated)"},
		Assume:     []string{"a static loop that never ends is a program that never ends; it keeps only its own caller waiting and is not fed", "a cut that leaves only complete declarations is a complete text", "mutated texts that declare an array parameter of more than 5000 elements are left out"},
		FaultKinds: []string{"stalled-client", "disk_read_error", "disk_file_missing", "disk_torn_write", "disk_lost_write", "disk_corruption", "disk_concurrent_replace", "import_cycle"},
		Run:        runC03,
	})
}

// badStmt is a statement no program may contain. syn: refused wherever it
// stands; otherwise only where it is executed. X stands for a main input.
type badStmt struct {
	kind string
	syn  bool
	text string
}

var badStmts = []badStmt{
	{"undeclared variable", false, "var zz1 = nope1*2"},
	{"undeclared variable alone", false, "var zz1 = nope1"},
	{"undeclared function", false, "var zz1 = nope1(3)"},
	{"undeclared function as statement", false, "nope1(3)"},
	{"undeclared array", false, "var zz1 = nope1[0]"},
	{"assignment to undeclared", false, "nope1 = 3"},
	{"assignment to undeclared element", false, "nope1[1] = 2"},
	{"argument undeclared", false, "equal(nope1,nope1)"},
	{"dynamic condition", false, "if X==3{\n}"},
	{"dynamic else condition", false, "if 1==2{\n}else if 3<X{\n}else{\n}"},
	{"dynamic loop", false, "for (X<3;X=X+1){\n}"},
	{"dynamic index", false, "var zz1[] = {1,2}\nvar zz2 = zz1[X]"},
	{"index out of range", false, "var zz1[] = {1,2}\nvar zz2 = zz1[2]"},
	{"negative index", false, "var zz1[] = {1,2}\nvar zz2 = zz1[1-2]"},
	{"array as number", false, "var zz1[] = {1,2}\nvar zz2 = zz1*X"},
	{"number as function", false, "var zz1 = 3\nvar zz2 = zz1(X)"},
	{"input as function", false, "var zz2 = X(3)"},
	{"too many arguments", false, "func zz1(p){\nreturn p\n}\nvar zz2 = zz1(X,X)"},
	{"too many arguments for the rest", false, "func zz1(p,q){\nreturn p*q\n}\nvar zz2 = zz1(X)\nvar zz3 = zz2(X,X)"},
	{"too many arguments for the rest of three", false, "func zz1(p,q,r){\nreturn p*q*r\n}\nvar zz2 = zz1(X,3)\nvar zz3 = zz2(X,X)"},
	{"too many arguments for the rest of the rest", false, "func zz1(p,q,r){\nreturn p*q*r\n}\nvar zz2 = zz1(X)\nvar zz3 = zz2(X)\nvar zz4 = zz3(X,X)"},
	{"all arguments again for the rest", false, "func zz1(p,q){\nreturn p*q\n}\nvar zz2 = zz1(X)\nequal(zz2(X,X,X),0)"},
	{"too many arguments of a parameter", false, "func zz1(p,q){\nreturn p*q\n}\nfunc zz2(f){\nreturn f(X,X)\n}\nvar zz3 = zz2(zz1(X))"},
	{"too few arguments of the rest", false, "func zz1(p,q,r){\nreturn p*q*r\n}\nvar zz2 = zz1(X)\nvar zz3 = zz2(X)*X"},
	{"too many arguments of a function without", false, "func zz1(){\nreturn 3\n}\nvar zz2 = zz1(X)"},
	{"too few arguments", false, "func zz1(p,q){\nreturn p*q\n}\nvar zz2 = zz1(X)+X"},
	{"too few arguments in a product", false, "func zz1(p,q){\nreturn p*q\n}\nvar zz2 = zz1(X)*X"},
	{"too few arguments in an equality", false, "func zz1(p,q){\nreturn p*q\n}\nequal(0,zz1(X))"},
	{"too few arguments in a subtraction", false, "func zz1(p,q){\nreturn p*q\n}\nvar zz2 = X-zz1(X)"},
	{"function as number", false, "func zz1(p,q){\nreturn p*q\n}\nvar zz2 = zz1*X"},
	{"nothing as number", false, "func zz1(p){\nvar q = p*p\n}\nvar zz2 = zz1(X)+1"},
	{"nothing in a gate", false, "func zz1(p){\nvar q = p*p\n}\nvar zz2 = addGateConstraint(zz1(X),X)"},
	{"doubly declared variable", false, "var zz1 = 1\nvar zz1 = 2"},
	{"doubly declared array", false, "var zz1[] = {1}\nvar zz1[] = {2}"},
	{"doubly declared function", false, "func zz1(p){\nreturn p\n}\nfunc zz1(q){\nreturn q\n}"},
	{"function named as variable", false, "var zz1 = 1\nfunc zz1(q){\nreturn q\n}"},
	{"doubly declared parameter", false, "func zz1(p,p){\nreturn p\n}"},
	{"input declared again", false, "var X = 3"},
	{"builtin redefined", false, "func equal(p,q){\nreturn p\n}"},
	{"equal with one argument", false, "equal(X)"},
	{"equal with three arguments", false, "equal(X,X,X)"},
	{"addGateConstraint with one argument", false, "var zz1 = addGateConstraint(X)"},
	{"scalarBaseMultiply with two arguments", false, "var zz1 = scalarBaseMultiply(X,X)"},
	{"SPLIT with two arguments", false, "SPLIT(X,X)"},
	{"SPLIT of a sum", false, "SPLIT(X+1)"},
	{"comparison as value", false, "var zz1 = (X==3)*X"},
	{"boolean operator", false, "var zz1 = X && 1"},
	{"boolean or", false, "var zz1 = X || 1"},
	{"shift", false, "var zz1 = X << 2"},
	{"division by zero", false, "var zz1 = X/0"},
	{"division by constantly zero", false, "var zz1 = X/(X-X)"},
	{"constant condition", false, "if 3{\n}"},
	{"arithmetic condition", false, "if 3+4{\n}"},
	{"public too late in a branch", false, "if 1==1{\npublic{X}\n}"},
	{"public in a function", false, "func zz1(p){\npublic{p}\nreturn p\n}"},
	{"public unknown", false, "public{nope1}"},
	{"public twice", false, "public{X}\npublic{X}"},
	{"public number", false, "public{5}"},
	{"missing import", true, "import \"not/there\""},
	{"import without name", true, "import"},
	{"expression statement", true, "X*X"},
	{"variable statement", true, "X"},
	{"number statement", true, "3"},
	{"bracket statement", true, "(X)"},
	{"unclosed bracket", true, "var zz1 = (X*2"},
	{"unopened bracket", true, "var zz1 = X*2)"},
	{"unclosed index", true, "var zz1 = X[0"},
	{"unopened index", true, "var zz1 = X[0]1]"},
	{"mixed brackets", true, "var zz1 = (X]"},
	{"unclosed call", true, "var zz1 = main(X"},
	{"unclosed call statement", true, "equal(X,X"},
	{"call with rest", true, "equal(X,X) X"},
	{"two operands", true, "var zz1 = X X"},
	{"number and operand", true, "var zz1 = 5X"},
	{"two operators", true, "var zz1 = X**X"},
	{"operator missing operand", true, "var zz1 = X+"},
	{"leading operator", true, "var zz1 = *X"},
	{"declaration without value", true, "var zz1"},
	{"declaration without expression", true, "var zz1 ="},
	{"declaration of a number", true, "var 5 = 3"},
	{"declaration without name", true, "var = 3"},
	{"array without values", true, "var zz1[] ="},
	{"array not closed", true, "var zz1[] = {1,2"},
	{"array with size", true, "var zz1[2] = {1,2}"},
	{"array with rest", true, "var zz1[] = {1} 2"},
	{"comma first", true, "equal(,X)"},
	{"comma twice", true, "equal(X,,X)"},
	{"else without if", true, "else{\n}"},
	{"else if without else", true, "if 1==2{\n}else if 1==1{\n}"},
	{"else with rest", true, "if 1==2{\n}else 1==1{\n}"},
	{"if without body", true, "if 1==1"},
	{"if without condition", true, "if {\n}"},
	{"for without brackets", true, "for 1==2;X=X{\n}"},
	{"for without step", true, "for (1==2){\n}"},
	{"for without body", true, "for (1==2;X=X)"},
	{"for without assignment", true, "for (1==2;X+1){\n}"},
	{"unclosed body", true, "if 1==1{"},
	{"closing brace", true, "}"},
	{"function without name", true, "func (p){\nreturn p\n}"},
	{"function with number as name", true, "func 5(p){\nreturn p\n}"},
	{"function without parameters", true, "func zz1{\nreturn 1\n}"},
	{"function without body", true, "func zz1(p)"},
	{"number as parameter", true, "func zz1(3){\nreturn 3\n}"},
	{"expression as parameter", true, "func zz1(p+q){\nreturn 3\n}"},
	{"parameter of dynamic size", true, "func zz1(p[q]){\nreturn 3\n}"},
	{"statement after return", true, "if 1==2{\nreturn 3\nvar zz1 = 3\n}"},
	{"increment operator", true, "X++"},
	{"foreign character", true, "var zz1 = 3 $ 4"},
	{"foreign operator", true, "var zz1 = 3 % 4"},
	{"open string", true, "import \"abc"},
	{"semicolon", true, "var zz1 = 3;"},
	{"assignment in expression", false, "var zz1 = X = 3"},
	{"assignment to expression", false, "X+1 = 3"},
	{"assignment to a call", true, "equal(X,X) = 3"},
	{"assignment to a number", true, "3 = X"},
	{"main held by a variable of main", false, "var zz1 = main\nvar zz2 = zz1(X)+1"},
	{"var 5[] = {1,2}", true, "var 5[] = {1,2}"},
	{"func zz1(p[0]){\nreturn 3\n}", true, "func zz1(p[0]){\nreturn 3\n}"},
	{"func zz1(p[0-1]){\nreturn 3\n}", true, "func zz1(p[0-1]){\nreturn 3\n}"},
	{"func zz1(p[]){\nreturn 3\n}", true, "func zz1(p[]){\nreturn 3\n}"},
	{"func zz1(p[2){\nreturn 3\n}", true, "func zz1(p[2){\nreturn 3\n}"},
	{"func zz1(p[99999999999999999999999]){\nreturn 3\n}", true, "func zz1(p[99999999999999999999999]){\nreturn 3\n}"},
	{"var zz1[] = {1,{2}}", true, "var zz1[] = {1,{2}}"},
	{"for (;;){\n}", true, "for (;;){\n}"},
	{"for (1==2;){\n}", true, "for (1==2;){\n}"},
	{"if 1==2{\n}else{\n}else{\n}", true, "if 1==2{\n}else{\n}else{\n}"},
	{"return 3 4", true, "return 3 4"},
	{"return X,", true, "return X,"},
	{"var zz1 = func", true, "var zz1 = func"},
	{"var if = 3", true, "var if = 3"},
	{"var zz1 = if", true, "var zz1 = if"},
	{"import \"x\" 3", true, "import \"x\" 3"},
	{"func zz1(p) 3 {\nreturn p\n}", true, "func zz1(p) 3 {\nreturn p\n}"},
	{"func zz1(p){\nreturn p\n} 3", true, "func zz1(p){\nreturn p\n} 3"},
	{"1==1", true, "1==1"},
	{"var zz1 = 1==1", false, "var zz1 = 1==1"},
	{"var zz1 = !X", true, "var zz1 = !X"},
	{"X[0] = 3", false, "X[0] = 3"},
	{"var zz1 = X[0]", false, "var zz1 = X[0]"},
	{"var zz1[] = {1}\nzz1 = 5", false, "var zz1[] = {1}\nzz1 = 5"},
	{"var zz1[] = {1}\nzz1[] = {3}", true, "var zz1[] = {1}\nzz1[] = {3}"},
	{"var zz1 = {1,2}", true, "var zz1 = {1,2}"},
	{"if (1==1) {\nvar zz1 = nope\n}", true, "if (1==1) {\nvar zz1 = nope\n}"},
	{"public{,X}", true, "public{,X}"},
	{"public{X X}", true, "public{X X}"},
	{"public X", true, "public X"},
	{"var zz1 = -X", true, "var zz1 = -X"},
	{"equal(X,X)(X)", true, "equal(X,X)(X)"},
	{"var zz1 = ()", true, "var zz1 = ()"},
	{"var zz1 = (X)(X)", true, "var zz1 = (X)(X)"},
	{"var zz1 = X(2)", false, "var zz1 = X(2)"},
	{"var zz1 = 3(2)", true, "var zz1 = 3(2)"},
	{"var zz1 = 3[2]", false, "var zz1 = 3[2]"},
	{"equal()", false, "equal()"},
	{"var zz1 = equal", true, "var zz1 = equal"},
	{"var zz1 = \"abc\"", true, "var zz1 = \"abc\""},
	{"\"abc\"", true, "\"abc\""},
	{"var zz1 = 1==2{\n}", true, "var zz1 = 1==2{\n}"},
	{"var zz1 = var zz2 = 3", true, "var zz1 = var zz2 = 3"},
	{"return return 3", true, "return return 3"},
	{"for (X=X;1==2){\n}", true, "for (X=X;1==2){\n}"},
	{"for (1==2;X=X){\n} 3", true, "for (1==2;X=X){\n} 3"},
	{"if 1==2{\n} 3", true, "if 1==2{\n} 3"},
	{"if 1==1{\n} else if 1==1 {\n}", true, "if 1==1{\n} else if 1==1 {\n}"},
	{"func zz1(,p){\nreturn p\n}", true, "func zz1(,p){\nreturn p\n}"},
	{"func zz1(p q){\nreturn p\n}", true, "func zz1(p q){\nreturn p\n}"},
	{"func zz1(p[2],p[2]){\nreturn p[0]\n}", true, "func zz1(p[2],p[2]){\nreturn p[0]\n}"},
	{"var zz1[] = {1,2} var zz2 = 3", true, "var zz1[] = {1,2} var zz2 = 3"},
	{"var zz1 = 1 var zz2 = 3", true, "var zz1 = 1 var zz2 = 3"},
	{"equal(X,X) equal(X,X)", true, "equal(X,X) equal(X,X)"},
	{"var zz1 = 1,2", true, "var zz1 = 1,2"},
	{"var zz1 = [1]", true, "var zz1 = [1]"},
	{"[1] = 2", true, "[1] = 2"},
	{"{\n}", true, "{\n}"},
	{"if 1==1\n{\n}", true, "if 1==1\n{\n}"},
	{"func zz1(p)\n{\nreturn p\n}", true, "func zz1(p)\n{\nreturn p\n}"},
	{"var\nzz1 = 3", true, "var\nzz1 = 3"},
	{"var zz1\n= 3", true, "var zz1\n= 3"},
	{"var zz1 =\n3", true, "var zz1 =\n3"},
	{"var zz1 = X+\nX", true, "var zz1 = X+\nX"},
	{"var zz1 = 0x", true, "var zz1 = 0x"},
	{"var zz1 = 0x12", true, "var zz1 = 0x12"},
	{"var zz1 = 12a", true, "var zz1 = 12a"},
	{"var zz1 = 1.5", true, "var zz1 = 1.5"},
	{"var zz1 = 1_0", true, "var zz1 = 1_0"},
	{"var zz1 = .5", true, "var zz1 = .5"},
	{"X[] = {1}", true, "X[] = {1}"},
	{"X = ", true, "X = "},
	{"X == 3", true, "X == 3"},
	{"X += 1", true, "X += 1"},
	{"X=+1", true, "X=+1"},
	{"var zz1[] = {1,2}\nvar zz2 = zz1", false, "var zz1[] = {1,2}\nvar zz2 = zz1"},
	{"var zz1[] = {1,2}\nzz1[X] = 3", false, "var zz1[] = {1,2}\nzz1[X] = 3"},
	{"var zz1[] = {1,2}\nzz1[2] = 3", false, "var zz1[] = {1,2}\nzz1[2] = 3"},
	{"var zz1[] = {1,2}\nvar zz2 = zz1[]", true, "var zz1[] = {1,2}\nvar zz2 = zz1[]"},
	{"var zz1[] = {1,2}\nvar zz2 = zz1[0,1]", true, "var zz1[] = {1,2}\nvar zz2 = zz1[0,1]"},
	{"var zz1[] = {1,2}\nvar zz2 = zz1[0][0]", false, "var zz1[] = {1,2}\nvar zz2 = zz1[0][0]"},
	{"var zz1[] = {1,2}\nvar zz2 = zz1[main]", false, "var zz1[] = {1,2}\nvar zz2 = zz1[main]"},
	{"var zz1 = X/(1-1)", false, "var zz1 = X/(1-1)"},
	{"SPLIT()", false, "SPLIT()"},
	{"SPLIT(3)", false, "SPLIT(3)"},
	{"SPLIT(main)", false, "SPLIT(main)"},
	{"var zz1 = X[3", true, "var zz1 = X[3"},
	{"if 1==2{\n}else {\n} else if 1==1{\n}", true, "if 1==2{\n}else {\n} else if 1==1{\n}"},
	{"if 1==1 & 2==2{\n}", true, "if 1==1 & 2==2{\n}"},
	{"if 1==1 && 2==2{\n}", false, "if 1==1 && 2==2{\n}"},
	{"if 1==1 || 2==2{\n}", false, "if 1==1 || 2==2{\n}"},
	{"if !1==1{\n}", true, "if !1==1{\n}"},
	{"if 1==2==3{\n}", false, "if 1==2==3{\n}"},
	{"if 1{\n}", false, "if 1{\n}"},
	{"if 1==1==1{\n}", false, "if 1==1==1{\n}"},
	{"if (1==2)==(1==2){\n}", false, "if (1==2)==(1==2){\n}"},
	{"if 1<2<3{\n}", false, "if 1<2<3{\n}"},
	{"if 1=1{\n}", false, "if 1=1{\n}"},
	{"var zz1 = 1<2", false, "var zz1 = 1<2"},
	{"var zz1 = X-", true, "var zz1 = X-"},
	{"var zz1 = X!", true, "var zz1 = X!"},
	{"var zz1 = X!=3", false, "var zz1 = X!=3"},
	{"func(p){\nreturn p\n}", true, "func(p){\nreturn p\n}"},
	{"import \"\"", true, "import \"\""},
	{"import import", true, "import import"},
	{"import X", true, "import X"},
	{"import \"a\" \"b\"", true, "import \"a\" \"b\""},
	{"return\nreturn", true, "return\nreturn"},
	{"return 1\nreturn 2", true, "return 1\nreturn 2"},
	{"endless recursion", false, "func zz1(p){\nreturn zz1(p)*p\n}\nvar zz2 = zz1(X)"},
	{"endless recursion in an index", false, "func zz1(p){\nvar q[] = {1,2}\nreturn q[zz1(p)]\n}\nvar zz2 = zz1(1)"},
	{"endless recursion in a condition", false, "func zz1(p){\nif zz1(p)==1{\nreturn 2\n}\nreturn 3\n}\nvar zz2 = zz1(1)"},
}

// badTop is text no program may contain outside of its functions.
var badTop = []string{
	"zq1 = 3", "equal(1,2)", "}", "{", "func", "func zz1", "func zz1(", "func zz1(p)", "func zz1(p){", "return 3", "else{\n}", ";", "(", ")", "]", "import", "import nope1", "import \"no such file\"",
	"if 1==1{\n}", "for (1==2;a=a){\n}", "zz1", "5", "func main(p){\nreturn p\n}", "var zz1", "var zz1 = ", "var zz1 = nope1", "public{zz1}", "@", "\"", "\xff", "var zz1 = 2\nvar zz1 = 3", "func zz1(p){\nreturn p\n}}", "func zz1(p){\nreturn p\n", ",", "=", "zz1[0] = 3", "+",
}

// blocks lists every statement list of the program that main executes or may execute.
func (p *program) blocks() (l []*[]*stmt) {
	var walk func(b *[]*stmt)
	walk = func(b *[]*stmt) {
		l = append(l, b)
		for _, s := range *b {
			for i := range s.body {
				walk(&s.body[i])
			}
			if s.fn != nil {
				walk(&s.fn.body)
			}
		}
	}
	for _, f := range p.funcs {
		walk(&f.body)
	}
	return
}

func (p *program) mainFn() *fndef {
	for _, f := range p.funcs {
		if f.name == "main" {
			return f
		}
	}
	return nil
}

// insertStmt puts raw text before a statement, never after a return.
func insertStmt(c *simrt.Choices, b *[]*stmt, text string) {
	n := len(*b)
	if n > 0 && (*b)[n-1].k == 'r' {
		n--
	}
	k := c.W.N(n + 1)
	l := append([]*stmt{}, (*b)[:k]...)
	l = append(l, &stmt{k: '!', name: text})
	*b = append(l, (*b)[k:]...)
}

// spans gives the tokens of a text with their places.
func spans(src string) (l [][2]int) {
	toks, _ := refLex(src)
	at := 0
	for _, t := range toks {
		i := strings.Index(src[at:], t.S)
		if i < 0 {
			return
		}
		l = append(l, [2]int{at + i, at + i + len(t.S)})
		at += i + len(t.S)
	}
	return
}

func braces(src string) (d int) {
	toks, _ := refLex(src)
	for _, t := range toks {
		if t.S == "{" {
			d++
		} else if t.S == "}" {
			d--
		}
	}
	return
}

// nested tells whether the brackets of a text match each other.
func nested(src string) bool {
	toks, _ := refLex(src)
	var open []string
	for _, t := range toks {
		switch t.S {
		case "(":
			open = append(open, ")")
		case "[":
			open = append(open, "]")
		case "{":
			open = append(open, "}")
		case ")", "]", "}":
			if len(open) == 0 || open[len(open)-1] != t.S {
				return false
			}
			open = open[:len(open)-1]
		}
	}
	return len(open) == 0
}

// vastArray tells whether a text may declare a parameter of very many elements:
// valid, but of no use here.
func vastArray(src string) bool {
	toks, _ := refLex(src)
	n := 1
	for i := range toks {
		switch {
		case toks[i].S != "[" || i+1 == len(toks):
			continue
		case i == 0 || toks[i-1].S != "]":
			n = 1
		}
		if toks[i+1].T == cc.NumberToken {
			if len(toks[i+1].S) > 4 {
				return true
			}
			k, _ := strconv.Atoi(toks[i+1].S)
			if n *= k; n > 5000 {
				return true
			}
		}
	}
	return false
}

// neighbours gives two tokens of a text that no program has beside each other
// on a line: two operands, two operators, an operator without operand.
func neighbours(src string) string {
	toks, _ := refLex(src)
	const (
		none = iota
		operand
		operator
		opening
		closing
		comma
	)
	kind := func(t refTok) int {
		switch t.S {
		case "(", "[":
			return opening
		case ")", "]":
			return closing
		case ",":
			return comma
		}
		switch {
		case t.T == cc.NumberToken || t.T == cc.IDENTIFIER_VARIABLE || t.T == cc.FUNCTION_CALL:
			return operand
		case t.T&cc.Operator != 0:
			return operator
		}
		return none
	}
	for i := 1; i < len(toks); i++ {
		a, b := toks[i-1], toks[i]
		x, y := kind(a), kind(b)
		switch {
		case (x == operand || x == closing) && y == operand,
			x == operator && (y == operator || y == closing || y == comma),
			(x == opening || x == comma) && (y == operator || y == comma),
			x == closing && a.S == ")" && y == opening:
			return a.S + " " + b.S
		}
	}
	return ""
}

// outcome of a compilation: refused or its dump
type compOut struct {
	refused string
	dump    string
}

func tryCompile(src string, kind int) (o compOut) {
	var d compiled
	txt, p := TryS(func() { d = dumpArt(compileArt(src, kind)) })
	if p {
		if txt == "" {
			txt = "panic"
		}
		return compOut{refused: txt}
	}
	if d.dense != "" {
		return compOut{dump: d.dense}
	}
	return compOut{dump: d.sparse}
}

// aloneCompile compiles src in a fresh process of its own.
func aloneCompile(x *X, src string) (o compOut) {
	x.Sim(Opt{NoPreempt: true}, func() {
		Join(func() { o = tryCompile(src, 1) })
	})
	return
}

type sess struct {
	src  string
	want []compOut // any of these; nil: must be refused
	bad  bool      // must be refused
	why  string
	kind int
}

func runC03(x *X) {
	c := x.C
	mode := c.W.Pick(6, 2, 3, 5) // bad statement, bad top, random mutation, imports
	cfg := langCfg{stmts: 3, div: true, small: c.W.Chance(2, 3), flat: mode == 2}
	good := genProgram(c, langCfg{stmts: 3, div: true, small: true})
	if ev := good.eval(good.drawInputs(c)); !ev.ok {
		x.Probe("left-out: " + ev.why)
		return
	}
	goodSrc := good.text()
	g := aloneCompile(x, goodSrc)
	if x.Failed() {
		return
	}
	if g.refused != "" {
		x.Fail("valid-program-refused", "refused", "a program of the language is refused: %s\n%s", g.refused, goodSrc)
		return
	}
	p := genProgram(c, cfg)
	switch mode {
	case 3:
		runC03import(x, p, goodSrc, g)
		return
	}
	src := p.text()
	var s sess
	switch mode {
	case 0:
		b := badStmts[c.W.N(len(badStmts))]
		if strings.HasPrefix(b.kind, "endless") && !c.W.Chance(1, 4) {
			b = badStmts[c.W.N(20)]
		}
		// an input of its own, as the others may be assigned constants
		in := "inX"
		p.mainFn().params = append(p.mainFn().params, param{name: in})
		blk := &p.mainFn().body
		if b.syn && c.W.Chance(1, 2) {
			bl := p.blocks()
			blk = bl[c.W.N(len(bl))]
		}
		text := b.text
		if strings.Contains(b.kind, "public twice") {
			p.public = nil
		}
		text = strings.ReplaceAll(text, "X", in)
		insertStmt(c, blk, text)
		s = sess{src: p.text(), bad: true, why: b.kind}
	case 1:
		t := badTop[c.W.N(len(badTop))]
		why := "top level: " + t
		if c.W.Chance(1, 3) { // cut
			sp := spans(src)
			k := c.W.N(len(sp))
			cut := src[:sp[k][0]]
			if c.W.Chance(1, 2) {
				cut = src[:sp[k][0]+c.W.N(sp[k][1]-sp[k][0]+1)]
			}
			if braces(cut) <= 0 {
				x.Probe("cut-between-declarations")
				return
			}
			s = sess{src: cut, bad: true, why: "cut"}
		} else if c.W.Chance(1, 2) {
			s = sess{src: t + "\n" + src, bad: true, why: why}
		} else {
			s = sess{src: src + "\n" + t + "\n", bad: true, why: why}
		}
		if t == "func main(p){\nreturn p\n}" && c.W.Chance(1, 2) {
			s = sess{src: strings.Replace(src, "func main(", "func mein(", 1), bad: true, why: "no main"}
		}
	case 2:
		s.src = mutateText(c, src)
		if vastArray(s.src) {
			x.Probe("vast-array")
			return
		}
		s.why = "random"
		if !nested(s.src) {
			s.bad, s.why = true, "brackets that do not match"
		} else if w := neighbours(s.src); w != "" {
			s.bad, s.why = true, "tokens that never stand beside each other: "+w
		}
	}
	x.Work(s.src)
	x.Sample("%s\n---\n%s", s.why, s.src)
	if !s.bad {
		o := aloneCompile(x, s.src)
		if x.Failed() {
			return
		}
		s.want = []compOut{o}
		if o.refused == "" {
			x.Probe("mutation-accepted")
		}
	}
	runSessions(x, []sess{s}, goodSrc, g, nil)
}

var mutToks = []string{"(", ")", "[", "]", "{", "}", ",", ";", "=", "==", "+", "-", "*", "/", "<", "&&", "\n", "var ", "func ", "return ", "if ", "else ", "for ", "import ", "public", "x", "main", "1", "0", " ", "#", "\"", "equal(", "$", "\x00"}

func mutateText(c *simrt.Choices, src string) string {
	if c.W.Chance(1, 4) { // one bracket more, less or of another kind
		sp := spans(src)
		var br []int
		for i, s := range sp {
			if s[1] == s[0]+1 && strings.Contains("()[]{}", src[s[0]:s[1]]) {
				br = append(br, i)
			}
		}
		if len(br) > 0 {
			s := sp[br[c.W.N(len(br))]]
			b := string("()[]{}"[c.W.N(6)])
			switch c.W.N(4) {
			case 0:
				return src[:s[0]] + src[s[1]:]
			case 1:
				return src[:s[1]] + src[s[0]:]
			case 2:
				return src[:s[0]] + b + src[s[1]:]
			case 3:
				s = sp[c.W.N(len(sp))]
				return src[:s[0]] + b + src[s[0]:]
			}
		}
	}
	for k := 1 + c.W.Pick(5, 2, 1); k > 0; k-- {
		sp := spans(src)
		if len(sp) < 3 {
			break
		}
		i := c.W.N(len(sp))
		switch c.W.N(6) {
		case 0:
			src = src[:sp[i][0]] + src[sp[i][1]:]
		case 1:
			src = src[:sp[i][1]] + " " + src[sp[i][0]:]
		case 2:
			src = src[:sp[i][0]] + mutToks[c.W.N(len(mutToks))] + src[sp[i][1]:]
		case 3:
			src = src[:sp[i][0]] + mutToks[c.W.N(len(mutToks))] + src[sp[i][0]:]
		case 4:
			j := c.W.N(len(sp))
			if i > j {
				i, j = j, i
			}
			if sp[i][1] <= sp[j][0] {
				src = src[:sp[i][0]] + src[sp[j][0]:sp[j][1]] + src[sp[i][1]:sp[j][0]] + src[sp[i][0]:sp[i][1]] + src[sp[j][1]:]
			}
		case 5:
			j := i + c.W.N(6)
			if j < len(sp) {
				src = src[:sp[i][0]] + src[sp[j][1]:]
			}
		}
	}
	return src
}

// runSessions lets clients compile spoilt and valid texts at the same time and after each other.
func runSessions(x *X, bad []sess, goodSrc string, g compOut, setup func() []func(), after ...func()) {
	c := x.C
	ngood := c.W.N(3)
	again := c.W.N(3)
	refusedSeen := false
	x.Sim(Opt{}, func() {
		var fs []func()
		if setup != nil {
			fs = setup()
		}
		for _, s := range bad {
			s := s
			fs = append(fs, func() {
				for k := 0; k <= again; k++ {
					stall(1, 10)
					o := tryCompile(s.src, 1+(k+s.kind)%2)
					judgeOutcome(x, s, o)
					refusedSeen = refusedSeen || o.refused != ""
				}
				if c.S.N(2) == 0 {
					goodAgain(x, goodSrc, g)
				}
			})
		}
		for k := 0; k < ngood; k++ {
			fs = append(fs, func() { stall(1, 8); goodAgain(x, goodSrc, g) })
		}
		for _, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("client-panic", "client-panic", "a client got a panic it did not expect: %s", o.Panic)
			}
		}
		goodAgain(x, goodSrc, g)
		for _, f := range after {
			f()
		}
	})
	if refusedSeen && ngood > 0 {
		x.Nontrivial()
	}
}

func goodAgain(x *X, src string, g compOut) {
	o := tryCompile(src, 1)
	if o.refused != "" {
		x.Fail("valid-program-refused", "refused-later", "a valid program is refused beside or after failing sessions: %s\n%s", o.refused, src)
	} else if o.dump != g.dump {
		x.Fail("compile-differs", "compile-differs", "a valid program gives another constraint system beside or after failing sessions\n%s\nalone:\n%s\nnow:\n%s", src, g.dump, o.dump)
	}
}

func judgeOutcome(x *X, s sess, o compOut) {
	if s.bad {
		if o.refused == "" {
			x.Fail("bad-accepted", "bad-accepted|"+s.why, "a text that is no program of the language is accepted (%s)\n%s\nas\n%s", s.why, s.src, o.dump)
		}
		return
	}
	for _, w := range s.want {
		if (w.refused == "") == (o.refused == "") && (o.refused != "" || w.dump == o.dump) {
			return
		}
	}
	var l []string
	for _, w := range s.want {
		l = append(l, fmt.Sprintf("refused %q / %s", w.refused, w.dump))
	}
	x.Fail("outcome-differs", "outcome-differs", "the outcome (refused %q / %s) is none of what the complete text gives alone (%s)\n%s\n%s", o.refused, o.dump, strings.Join(l, " | "), s.why, s.src)
}

// ---- imports ----

func runC03import(x *X, p *program, goodSrc string, g compOut) {
	c := x.C
	// one to three library files take over functions of the program; every library
	// ends with a function the program needs
	sane := p.eval(p.drawInputs(c)).ok
	nl := 1 + c.W.Pick(4, 2, 1)
	if c.W.Chance(1, 30) {
		nl = 4 + c.W.N(12)
	}
	in := ""
	for _, q := range p.mainFn().params {
		if q.dims == nil {
			in = q.name
		}
	}
	if in == "" {
		p.mainFn().params = append(p.mainFn().params, param{name: "inX"})
		in = "inX"
	}
	names := []string{"lib0", "dir/lib1", "other lib.txt"}
	if c.W.Chance(1, 3) {
		names = []string{"../a", "ünï/b", "c"}
	}
	for k := 3; k < nl; k++ {
		names = append(names, fmt.Sprintf("lib%d", k))
	}
	body := make([]string, nl)
	if c.W.Chance(1, 40) {
		// a long file, of a length around that of a buffer
		n := 1<<uint(8+c.W.N(10)) - 60 + c.W.N(80)
		k := c.W.N(nl)
		switch c.W.N(4) {
		case 0:
			body[k] = "#" + strings.Repeat("c", n) + "\n"
		case 1:
			body[k] = strings.Repeat("# a line\n", 1+n/9)
		case 2:
			body[k] = strings.Repeat("\n", n)
		case 3:
			body[k] = strings.Repeat("ü ", n/3)
			body[k] = "#" + body[k] + "\n"
		}
	}
	isLib := map[int]int{}
	for i, f := range p.funcs {
		if f.name != "main" && c.W.Chance(2, 3) {
			isLib[i] = c.W.N(nl)
		}
	}
	for i := range p.funcs {
		if k, ok := isLib[i]; ok {
			var b strings.Builder
			p.funcs[i].print(&b, "", 0)
			body[k] += b.String()
		}
	}
	for k := 0; k < nl; k++ {
		insertStmt(c, &p.mainFn().body, fmt.Sprintf("var zl%d = libf%d(%s)*%s", k, k, in, in))
	}
	last := func(k, v int) string {
		return fmt.Sprintf("func libf%d(a){\n\treturn a*a*%d + a\n}", k, 3+v*4+k)
	}
	// how the files reach each other: the program imports file 0; file k imports file k+1 or the program does
	chained := make([]bool, nl)
	for k := 1; k < nl; k++ {
		chained[k] = c.W.Chance(1, 2)
	}
	imp := func(k int) string { return "import \"" + names[k] + "\"\n" }
	text := func(k, v int) string {
		s := body[k]
		if k+1 < nl && chained[k+1] {
			if c.W.Chance(1, 2) {
				s = imp(k+1) + s
			} else {
				s += imp(k + 1)
			}
		}
		return s + last(k, v)
	}
	var order []int
	for _, k := range p.order {
		if _, ok := isLib[k]; !ok || k >= len(p.funcs) {
			order = append(order, k)
		}
	}
	p.order = order
	mainText := strings.TrimRight(p.text(), "\n") + "\n"
	// a second version of one file
	v := c.W.N(nl)
	files := make([]string, nl)
	for k := range files {
		files[k] = text(k, 0)
	}
	newer := strings.Replace(files[v], last(v, 0), last(v, 1), 1)
	var head, tail string
	for k := 0; k < nl; k++ {
		if k == 0 || !chained[k] {
			if c.W.Chance(1, 2) {
				head += imp(k)
			} else {
				tail += imp(k)
			}
		}
	}
	src := head + mainText + tail
	inline := func(files []string) string {
		s := src
		for k := range names[:nl] {
			s = strings.ReplaceAll(s, imp(k), files[k]+"\n")
		}
		return s
	}
	with := func(k int, t string) []string {
		l := append([]string{}, files...)
		l[k] = t
		return l
	}
	if !sane {
		x.Probe("left-out: division by zero")
		return
	}
	base := aloneCompile(x, inline(files))
	if x.Failed() {
		return
	}
	if base.refused != "" {
		x.Fail("valid-program-refused", "refused", "a program of the language is refused: %s\n%s", base.refused, inline(files))
		return
	}
	fault := c.W.Pick(3, 2, 2, 3, 2, 2, 2, 2, 3)
	s := sess{src: src, want: []compOut{base}}
	var after []func()
	f := c.W.N(nl)
	var setup func() []func()
	put := func(l []string) {
		for k, t := range l {
			simrt.Cur().Disk.Put(names[k], []byte(t))
		}
	}
	switch fault {
	case 0:
		s.why = "imports without fault"
		setup = func() []func() { put(files); return nil }
	case 1:
		s = sess{src: src, bad: true, why: "import missing"}
		setup = func() []func() {
			w := simrt.Cur()
			for k, t := range files {
				if k != f {
					w.Disk.Put(names[k], []byte(t))
				} else {
					w.Fault("disk_file_missing")
				}
			}
			return nil
		}
	case 2: // reads fail now and then, possibly with a part of the content
		s.why = "import unreadable"
		s.want = append(s.want, compOut{refused: "x"})
		always := c.W.Chance(1, 2)
		if always {
			s = sess{src: src, bad: true, why: s.why}
		}
		setup = func() []func() {
			put(files)
			w := simrt.Cur()
			w.Disk.OnRead = func(path string, d []byte) ([]byte, error) {
				if path == names[f] && (always || c.F.Chance(1, 2)) {
					w.Fault("disk_read_error")
					return d[:c.F.N(len(d)+1)], &fs.PathError{Op: "read", Path: path, Err: fs.ErrInvalid}
				}
				return d, nil
			}
			return nil
		}
	case 3: // written, then a crash of the writer before everything is durable
		cut := c.W.N(len(newer))
		first := c.W.Chance(1, 2) // no earlier version
		f = v
		s = sess{src: src, bad: true, why: fmt.Sprintf("import %q torn at byte %d", names[v], cut)}
		if !first && c.W.Chance(1, 3) { // the write is lost altogether
			s = sess{src: src, want: []compOut{base}, why: "new version lost"}
			setup = func() []func() {
				put(files)
				d := simrt.Cur().Disk
				d.Write(names[v], []byte(newer))
				d.CrashPath(names[v], nil)
				simrt.Cur().Fault("disk_lost_write")
				return nil
			}
			break
		}
		setup = func() []func() {
			for k, t := range files {
				if k != v {
					simrt.Cur().Disk.Put(names[k], []byte(t))
				}
			}
			d := simrt.Cur().Disk
			d.Write(names[v], []byte(newer))
			d.CrashPath(names[v], func(int) int { return cut })
			simrt.Cur().Fault("disk_torn_write")
			return nil
		}
	case 4: // cycle
		s = sess{src: src, bad: true, why: "imports in a circle"}
		to := c.W.N(f + 1)
		reach := true
		for k := to + 1; k <= f; k++ {
			reach = reach && chained[k]
		}
		if !reach {
			to = f
		}
		cyc := with(f, imp(to)+files[f])
		if c.W.Chance(1, 2) {
			cyc = with(f, files[f]+"\n"+imp(to))
		}
		setup = func() []func() { put(cyc); simrt.Cur().Fault("import_cycle"); return nil }
	case 5: // damaged content: same as the inlined damaged text
		b := []byte(files[f])
		for k := 1 + c.W.N(3); k > 0; k-- {
			i := c.W.N(len(b))
			if strings.Contains(string(b[max0(i-12):min(len(b), i+12)]), "for ") {
				continue
			}
			b[i] = "()[]{},;=+-*/<xa10\n #$\x00\xff"[c.W.N(24)]
		}
		dmg := with(f, string(b))
		if strings.Contains(string(b), "if") || strings.Contains(string(b), "for") || strings.Contains(string(b), "import") || strings.Contains(string(b), "\"") {
			x.Probe("damage-left-out")
			return
		}
		t := inline(dmg)
		o := aloneCompile(x, t)
		if x.Failed() {
			return
		}
		s.want, s.why = []compOut{o}, "import damaged"
		setup = func() []func() { put(dmg); simrt.Cur().Fault("disk_corruption"); return nil }
	case 6: // replaced while sessions read
		o := aloneCompile(x, inline(with(v, newer)))
		if x.Failed() {
			return
		}
		s.want, s.why = []compOut{base, o}, "import replaced"
		lost := false
		after = append(after, func() {
			// who asks now gets what is there now
			now := o
			if lost {
				now = base
			}
			judgeOutcome(x, sess{src: src, want: []compOut{now}, why: "import replaced before"}, tryCompile(src, 1))
		})
		setup = func() []func() {
			put(files)
			w := simrt.Cur()
			return []func(){func() {
				w.Sleep(int64(c.F.N(50)))
				w.Fault("disk_concurrent_replace")
				w.Disk.Write(names[v], []byte(newer))
				if c.F.Chance(1, 2) {
					lost = true
					w.Disk.CrashPath(names[v], nil)
				} else {
					w.Disk.Sync(names[v])
				}
			}}
		}
	case 8: // one state of the files after the other
		o := aloneCompile(x, inline(with(v, newer)))
		if x.Failed() {
			return
		}
		s.why = "imports, then others"
		setup = func() []func() { put(files); return nil }
		for n := 1 + c.W.N(3); n > 0; n-- {
			kind := c.W.N(4)
			i := c.W.N(nl)
			after = append(after, func() {
				d := simrt.Cur().Disk
				t := sess{src: src, want: []compOut{base}, why: "imports as at first"}
				put(files)
				switch kind {
				case 0:
					d.Put(names[v], []byte(newer))
					t = sess{src: src, want: []compOut{o}, why: "import replaced between sessions"}
					simrt.Cur().Fault("disk_replace")
				case 1:
					d.Del(names[i])
					t = sess{src: src, bad: true, why: "import removed between sessions"}
					simrt.Cur().Fault("disk_file_missing")
				case 2:
					d.Put(names[i], []byte(files[i]+"}\n"))
					t = sess{src: src, bad: true, why: "import spoilt between sessions"}
					simrt.Cur().Fault("disk_corruption")
				}
				judgeOutcome(x, t, tryCompile(src, 1))
			})
		}
	case 7: // imported twice: everything declared twice
		s = sess{src: imp(0) + src, bad: true, why: "imported twice"}
		setup = func() []func() { put(files); return nil }
	}
	x.Work(s.src + strings.Join(files, "|") + s.why)
	x.Sample("%s\n---\n%s\n---\n%s", s.why, s.src, strings.Join(files, "\n---\n"))
	bad := []sess{s}
	if c.W.Chance(1, 2) {
		bad = append(bad, s)
	}
	runSessions(x, bad, goodSrc, g, setup, after...)
	if fault == 0 || fault == 8 {
		x.Nontrivial()
	}
}

func max0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}
