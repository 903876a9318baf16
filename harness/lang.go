package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// ---- the circuit language: syntax trees, printing, reference interpreter ----
//
// Binary operators are printed fully parenthesised (the language documents no
// precedence); chains of the same associative operator are printed flat.

type expr struct {
	op   byte // n number, v variable, i array element, c call, b binary, B flat chain, F function reference
	s    string
	o    string
	args []*expr
}

type stmt struct {
	k     byte // v var, a array, = assign, [ assign element, i if chain, f for, r return, c call, F function, q equal, s SPLIT, # comment
	name  string
	e     []*expr
	conds []*cond
	body  [][]*stmt
	els   bool
	fn    *fndef
	style int
}

type cond struct {
	l, r *expr
	op   string
}

type param struct {
	name string
	dims []int
}

type fndef struct {
	name   string
	params []param
	body   []*stmt
}

type program struct {
	globals []*stmt
	funcs   []*fndef
	order   []int // printing order: <len(funcs) function, otherwise global
	public  []string
	inputs  []string // flattened names of main's inputs
	hints   map[string]bool
	expo    bool // uses scalarBaseMultiply
	split   bool
	div     bool
	long    *stmt // a computation of many calls
}

func (p param) flat() (l []string) {
	l = []string{p.name}
	for _, d := range p.dims {
		var m []string
		for _, s := range l {
			for i := 0; i < d; i++ {
				m = append(m, fmt.Sprintf("%s[%d]", s, i))
			}
		}
		l = m
	}
	return
}

func (p param) text() string {
	s := p.name
	for _, d := range p.dims {
		s += fmt.Sprintf("[%d]", d)
	}
	return s
}

func (e *expr) text(top bool) string {
	switch e.op {
	case 'n', 'v', 'F':
		return e.s
	case 'i':
		s := e.s
		for _, a := range e.args {
			s += "[" + a.text(true) + "]"
		}
		return s
	case 'c':
		var l []string
		for _, a := range e.args {
			l = append(l, a.text(true))
		}
		return e.s + "(" + strings.Join(l, ",") + ")"
	case 'b':
		s := e.args[0].text(false) + e.o + e.args[1].text(false)
		if top && len(s)%3 != 0 {
			return s
		}
		return "(" + s + ")"
	case 'B':
		var l []string
		for _, a := range e.args {
			l = append(l, a.text(false))
		}
		s := strings.Join(l, " "+e.o+" ")
		if top {
			return s
		}
		return "(" + s + ")"
	}
	panic("expr")
}

func printBlock(b *strings.Builder, ind string, l []*stmt) {
	for _, s := range l {
		s.print(b, ind)
	}
}

// layout varies the white space and the comments, decided by the text so far.
func layout(b *strings.Builder, n int) int {
	return int(hash64(fmt.Sprint(b.Len()))>>20) % n
}

func eol(b *strings.Builder) string {
	switch layout(b, 24) {
	case 1:
		return " # note\n"
	case 2:
		return "#}\n"
	case 3:
		return "  \n"
	case 4:
		return "\n\n"
	case 5:
		return "\t\n \t\n"
	}
	return "\n"
}

func (s *stmt) print(b *strings.Builder, ind string) {
	switch s.k {
	case '#', '!':
		b.WriteString(ind + s.name + "\n")
	case 'v':
		b.WriteString(ind + "var " + s.name + []string{" = ", "=", " =", "= "}[layout(b, 4)] + s.e[0].text(true) + eol(b))
	case 'a':
		var l []string
		for _, e := range s.e {
			l = append(l, e.text(true))
		}
		b.WriteString(ind + "var " + s.name + "[] = {" + strings.Join(l, ", ") + "}\n")
	case '=':
		b.WriteString(ind + s.name + []string{" = ", "=", " =", "= "}[layout(b, 4)] + s.e[0].text(true) + eol(b))
	case '[':
		b.WriteString(ind + s.name + "[" + s.e[0].text(true) + "] = " + s.e[1].text(true) + "\n")
	case 'r':
		if len(s.e) == 0 {
			b.WriteString(ind + "return\n")
		} else {
			b.WriteString(ind + "return " + s.e[0].text(s.style != 1) + eol(b))
		}
	case 'c':
		b.WriteString(ind + s.e[0].text(true) + eol(b))
	case 'q':
		b.WriteString(ind + "equal(" + s.e[0].text(true) + "," + s.e[1].text(true) + ")" + eol(b))
	case 's':
		b.WriteString(ind + "SPLIT(" + s.e[0].text(true) + ")\n")
	case 'F':
		s.fn.print(b, ind, s.style)
	case 'f':
		c := s.conds[0]
		b.WriteString(ind + "for (" + c.l.text(true) + c.op + c.r.text(true) + ";" + s.name + "=" + s.e[0].text(true) + "){\n")
		printBlock(b, ind+"\t", s.body[0])
		b.WriteString(ind + "}\n")
	case 'i':
		for i, bd := range s.body {
			if i == 0 {
				b.WriteString(ind + "if ")
			} else if i < len(s.conds) {
				b.WriteString("else if ")
			} else {
				b.WriteString("else")
			}
			if i < len(s.conds) {
				c := s.conds[i]
				t := c.l.text(false) + c.op + c.r.text(false)
				if (i+s.style)%2 == 0 {
					t = "(" + t + ")"
				}
				b.WriteString(t)
			}
			b.WriteString("{\n")
			printBlock(b, ind+"\t", bd)
			b.WriteString(ind + "}")
		}
		b.WriteString("\n")
	}
}

func (f *fndef) print(b *strings.Builder, ind string, style int) {
	var l []string
	for _, p := range f.params {
		l = append(l, p.text())
	}
	nl := "\n"
	one := f.name != "main" && len(f.body) == 1 && f.body[0].k == 'r' && len(f.body[0].e) == 1 && layout(b, 2) == 0
	if one {
		nl = ""
	}
	sp := []string{"", " ", ""}[layout(b, 3)]
	if style == 1 {
		b.WriteString(ind + "var " + f.name + " = func(" + strings.Join(l, ",") + ")" + sp + "{" + nl)
	} else {
		b.WriteString(ind + "func " + f.name + "(" + strings.Join(l, ", ") + ")" + sp + "{" + nl)
	}
	if one {
		b.WriteString("return " + f.body[0].e[0].text(true) + "}\n")
		return
	}
	printBlock(b, ind+"\t", f.body)
	b.WriteString(ind + "}\n")
}

func (p *program) text() string {
	var b strings.Builder
	for _, k := range p.order {
		if k < len(p.funcs) {
			f := p.funcs[k]
			if f.name == "main" && len(p.public) > 0 {
				// public goes first
				var t strings.Builder
				f.print(&t, "", 0)
				s := t.String()
				i := strings.IndexByte(s, '\n') + 1
				sep := ", "
				open, cl := "{", "}"
				if len(p.public) > 2 {
					open, cl = "{\n\t\t", "\n\t}"
				}
				b.WriteString(s[:i] + "\tpublic" + open + strings.Join(p.public, sep) + cl + "\n" + s[i:])
			} else {
				f.print(&b, "", 0)
			}
		} else {
			p.globals[k-len(p.funcs)].print(&b, "")
		}
	}
	if layout(&b, 4) == 0 {
		return strings.TrimRight(b.String(), " \t\n") // the last line without a line break
	}
	return b.String()
}

// ---- interpreter ----

type val struct {
	n    *big.Int
	atom bool // exactly one input signal
	fn   *closure
	void bool
}

type closure struct {
	params []string
	body   []*stmt
	env    *env
	bound  []*val
	name   string
}

type env struct {
	vars map[string]*val
	up   *env
}

func newEnv(up *env) *env { return &env{vars: map[string]*val{}, up: up} }

func (e *env) find(s string) *env {
	for ; e != nil; e = e.up {
		if _, ok := e.vars[s]; ok {
			return e
		}
	}
	return nil
}

type interp struct {
	hints     map[string]*big.Int // unset hints are bound by the first equal
	pr        *program
	unsat     bool
	ambiguous bool
	steps     int
	trail     []*big.Int
}

type interpAbort struct{ s string }

func (in *interp) tick() {
	in.steps++
	if in.steps > 20000 && (in.pr.long == nil || in.steps > 2000000) {
		panic(interpAbort{"too long"})
	}
}

func numv(v *big.Int) *val { return &val{n: red(v)} }

func (in *interp) eval(e *expr, en *env) *val {
	in.tick()
	switch e.op {
	case 'n':
		v, _ := new(big.Int).SetString(e.s, 10)
		return numv(v)
	case 'v', 'F':
		f := en.find(e.s)
		if f == nil {
			panic(interpAbort{"undeclared " + e.s})
		}
		return f.vars[e.s]
	case 'i':
		s := e.s
		for _, a := range e.args {
			s += fmt.Sprintf("[%v]", in.eval(a, en).n)
		}
		f := en.find(s)
		if f == nil {
			panic(interpAbort{"undeclared " + s})
		}
		return f.vars[s]
	case 'b', 'B':
		a := in.eval(e.args[0], en)
		for _, x := range e.args[1:] {
			b := in.eval(x, en)
			if a.n == nil || b.n == nil {
				panic(interpAbort{"not a number"})
			}
			switch e.o {
			case "+":
				a = numv(fAdd(a.n, b.n))
			case "-":
				a = numv(fSub(a.n, b.n))
			case "*":
				a = numv(fMul(a.n, b.n))
			case "/":
				if b.n.Sign() == 0 {
					if !b.atom {
						panic(interpAbort{"division by zero"}) // may be zero for all inputs
					}
					in.unsat = true
				}
				a = numv(fMul(a.n, fInv(b.n)))
			default:
				panic("op")
			}
		}
		return a
	case 'c':
		switch e.s {
		case "addGateConstraint":
			return numv(fAdd(in.eval(e.args[0], en).n, in.eval(e.args[1], en).n))
		case "scalarBaseMultiply":
			return numv(refX(in.eval(e.args[0], en).n))
		case "BREAK": // shows its arguments
			for _, a := range e.args {
				in.eval(a, en)
			}
			return &val{void: true}
		}
		f := en.find(e.s)
		if f == nil || f.vars[e.s].fn == nil {
			panic(interpAbort{"no function " + e.s})
		}
		cl := f.vars[e.s].fn
		var args []*val
		for _, a := range e.args {
			v := in.eval(a, en)
			if v.void {
				panic(interpAbort{"void argument"})
			}
			args = append(args, v)
		}
		return in.call(cl, args)
	}
	panic("eval")
}

func (in *interp) call(cl *closure, args []*val) *val {
	all := append(append([]*val{}, cl.bound...), args...)
	if len(all) > len(cl.params) {
		panic(interpAbort{"arity"})
	}
	if len(all) < len(cl.params) {
		return &val{fn: &closure{params: cl.params, body: cl.body, env: cl.env, bound: all, name: cl.name}}
	}
	en := newEnv(cl.env)
	for i, p := range cl.params {
		en.vars[p] = all[i]
	}
	if v, ret := in.exec(cl.body, en); ret && v != nil {
		return v
	}
	return &val{void: true}
}

func (in *interp) cond(c *cond, en *env) bool {
	k := in.eval(c.l, en).n.Cmp(in.eval(c.r, en).n)
	switch c.op {
	case "==":
		return k == 0
	case "!=":
		return k != 0
	case "<":
		return k < 0
	case "<=":
		return k <= 0
	case ">":
		return k > 0
	case ">=":
		return k >= 0
	}
	panic("cond")
}

func (in *interp) exec(l []*stmt, en *env) (*val, bool) {
	// functions are known in their whole block
	for _, s := range l {
		if s.k == 'F' {
			in.define(s.fn, en)
		}
	}
	for _, s := range l {
		in.tick()
		switch s.k {
		case 'v':
			en.vars[s.name] = in.eval(s.e[0], en)
		case 'a':
			for i, e := range s.e {
				en.vars[fmt.Sprintf("%s[%d]", s.name, i)] = in.eval(e, en)
			}
		case '=', '[':
			n := s.name
			if s.k == '[' {
				n = fmt.Sprintf("%s[%v]", n, in.eval(s.e[0], en).n)
			}
			v := in.eval(s.e[len(s.e)-1], en)
			t := en.find(n)
			if t == nil {
				panic(interpAbort{"undeclared " + n})
			}
			t.vars[n] = v
			if v.n != nil {
				in.trail = append(in.trail, v.n)
			}
		case 'r':
			if len(s.e) == 0 {
				return nil, true
			}
			return in.eval(s.e[0], en), true
		case 'c':
			in.eval(s.e[0], en)
		case 's':
			v := in.eval(s.e[0], en)
			n := s.e[0].s
			for _, a := range s.e[0].args {
				n += fmt.Sprintf("[%v]", in.eval(a, en).n)
			}
			for i := 0; i < 254; i++ {
				en.vars[fmt.Sprintf("%s[%d]", n, i)] = numv(bi(int64(v.n.Bit(i))))
			}
		case 'q':
			in.equal(s.e[0], s.e[1], en)
		case 'i':
			for i, b := range s.body {
				if i >= len(s.conds) || in.cond(s.conds[i], en) {
					if v, ret := in.exec(b, newEnv(en)); ret {
						return v, true
					}
					break
				}
			}
		case 'f':
			for in.cond(s.conds[0], en) {
				if v, ret := in.exec(s.body[0], newEnv(en)); ret {
					return v, true
				}
				v := in.eval(s.e[0], en)
				en.find(s.name).vars[s.name] = v
				in.tick()
			}
		}
	}
	return nil, false
}

func (in *interp) define(f *fndef, en *env) {
	var ps []string
	for _, p := range f.params {
		ps = append(ps, p.flat()...)
	}
	en.vars[f.name] = &val{fn: &closure{params: ps, body: f.body, env: en, name: f.name}}
}

func (in *interp) equal(a, b *expr, en *env) {
	for k := 0; k < 2; k++ {
		if a.op == 'v' && in.pr.hints[a.s] {
			if h, ok := in.hints[a.s]; !ok || h == nil {
				v := in.eval(b, en).n
				in.hints[a.s] = v
				t := en.find(a.s)
				t.vars[a.s] = &val{n: v, atom: true}
				return
			}
		}
		a, b = b, a
	}
	va, vb := in.eval(a, en), in.eval(b, en)
	if va.n.Cmp(vb.n) != 0 {
		in.unsat = true
	}
}

type evalResult struct {
	inputs    []*big.Int // in the order of program.inputs, hints filled in
	ret       *big.Int
	unsat     bool
	ambiguous bool
	ok        bool // false: the interpreter gave up
	why       string
	trail     []*big.Int
}

// eval runs the program on the inputs; a nil input is a hint to be solved.
func (p *program) eval(inputs []*big.Int) (r evalResult) {
	in := &interp{hints: map[string]*big.Int{}, pr: p}
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(interpAbort); ok {
				r = evalResult{why: a.s}
				return
			}
			panic(e)
		}
	}()
	g := newEnv(nil)
	for _, s := range p.globals {
		in.exec([]*stmt{s}, g)
	}
	var main *fndef
	for _, f := range p.funcs {
		in.define(f, g)
		if f.name == "main" {
			main = f
		}
	}
	m := newEnv(g)
	for i, n := range p.inputs {
		v := inputs[i]
		if v == nil {
			m.vars[n] = &val{atom: true}
		} else {
			m.vars[n] = &val{n: red(v), atom: true}
			if p.hints[n] {
				in.hints[n] = red(v)
			}
		}
	}
	v, _ := in.exec(main.body, m)
	r.ok = true
	if v != nil {
		r.ret = v.n
	}
	r.unsat, r.ambiguous, r.trail = in.unsat, in.ambiguous, in.trail
	for i, n := range p.inputs {
		iv := inputs[i]
		if iv == nil {
			iv = in.hints[n]
			if iv == nil {
				iv = bi(0) // never used
			}
		}
		r.inputs = append(r.inputs, iv)
	}
	return
}

var refXMemo = map[string]*big.Int{}

// refX is the x coordinate of k times the generator, 0 for the identity.
func refX(k *big.Int) *big.Int {
	k = red(k)
	s := k.String()
	if v, ok := refXMemo[s]; ok {
		return v
	}
	if len(refXMemo) > 20000 {
		refXMemo = map[string]*big.Int{}
	}
	p := eMul(refBase(1, bi(1)), k)
	v := bi(0)
	if !p.inf {
		v = new(big.Int).Mod(p.x.a, refP)
	}
	refXMemo[s] = v
	return v
}

// ---- generator ----

type langCfg struct {
	stmts  int // statements of main, roughly
	expo   bool
	split  bool
	div    bool
	noHint bool
	small  bool // few gates
	long   bool
	large  int  // one in so many programs is much larger
	tall   int  // main begins with a chain of so many products
	flat   bool // no loops and no recursion
}

type sym struct {
	name  string
	kind  byte // d dynamic number, s static number, f function, a array, C static constant (not assignable), h hint
	ar    int  // arity of function / length of array
	sar   bool // array of statics
	sigs  string
	depth int
	ro    bool // never assigned
}

type scope struct {
	syms []*sym
	up   *scope
	fn   bool // function boundary
	used map[string]bool
}

func (s *scope) visible() (l []*sym) {
	seen := map[string]bool{}
	for ; s != nil; s = s.up {
		for i := len(s.syms) - 1; i >= 0; i-- {
			if !seen[s.syms[i].name] {
				seen[s.syms[i].name] = true
				l = append(l, s.syms[i])
			}
		}
	}
	return
}

func (s *scope) has(name string) bool {
	for _, v := range s.visible() {
		if v.name == name {
			return true
		}
	}
	return false
}

type langGen struct {
	c      *simrt.Choices
	cfg    langCfg
	pr     *program
	n      int
	budget int
	inLoop int
	mainSc *scope
}

func (g *langGen) fresh(p string) string {
	g.n++
	return fmt.Sprintf("%s%d", p, g.n)
}

// pick a visible symbol of one of the kinds
func (g *langGen) pick(sc *scope, kinds string, f func(*sym) bool) *sym {
	var l []*sym
	for _, s := range sc.visible() {
		if strings.IndexByte(kinds, s.kind) >= 0 && (f == nil || f(s)) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.c.W.N(len(l))]
}

func num(v int64) *expr    { return &expr{op: 'n', s: fmt.Sprint(v)} }
func vr(s string) *expr    { return &expr{op: 'v', s: s} }
func fnref(s string) *expr { return &expr{op: 'F', s: s} }
func bin(a *expr, o string, b *expr) *expr {
	return &expr{op: 'b', o: o, args: []*expr{a, b}}
}
func call(f string, a ...*expr) *expr { return &expr{op: 'c', s: f, args: a} }

func (g *langGen) literal() *expr {
	switch g.c.W.Pick(3, 8, 2, 1, 1, 1) {
	case 0:
		return num(int64(g.c.W.N(3)))
	case 1:
		return num(int64(1 + g.c.W.N(30)))
	case 2:
		return num(1 + g.c.W.Salt())
	case 3:
		return &expr{op: 'n', s: new(big.Int).Sub(refQ, bi(int64(1+g.c.W.N(5)))).String()}
	case 4:
		return &expr{op: 'n', s: new(big.Int).Add(refQ, bi(int64(g.c.W.N(4)))).String()}
	}
	return &expr{op: 'n', s: "00" + fmt.Sprint(g.c.W.N(20))}
}

// huge builds a compile-time number of more than one machine word.
func (g *langGen) huge(sc *scope) *expr {
	c := g.c.W
	if s := g.pick(sc, "L", nil); s != nil && c.Chance(1, 3) {
		return vr(s.name)
	}
	var v *big.Int
	switch c.N(5) {
	case 0:
		v = drawRim(g.c)
	case 1:
		v = new(big.Int).Sub(refQ, bi(int64(1+c.N(5))))
	case 2:
		return bin(num(int64(c.N(3))), "-", bin(g.static(sc, 0), "+", num(3))) // below zero
	case 3:
		v = new(big.Int).Lsh(bi(1+int64(c.N(7))), uint(62+c.N(150)))
		v.Add(v, bi(int64(c.N(7))))
	default:
		v = new(big.Int).Mod(new(big.Int).Mul(bi(c.Salt()), new(big.Int).Lsh(bi(c.Salt()), uint(c.N(200)))), refQ)
	}
	e := &expr{op: 'n', s: v.String()}
	if c.Chance(1, 3) {
		return bin(e, []string{"+", "*", "-"}[c.N(3)], g.static(sc, 0))
	}
	return e
}

// static builds an expression of compile-time numbers of small value.
func (g *langGen) static(sc *scope, d int) *expr {
	if d > 0 && g.c.W.Chance(1, 3) {
		return bin(g.static(sc, d-1), []string{"+", "*", "-"}[g.c.W.Pick(3, 2, 1)], g.static(sc, d-1))
	}
	if g.c.W.Chance(1, 2) {
		if s := g.pick(sc, "sC", nil); s != nil {
			return vr(s.name)
		}
		if s := g.pick(sc, "a", func(s *sym) bool { return s.sar && s.ar > 0 }); s != nil {
			return &expr{op: 'i', s: s.name, args: []*expr{num(int64(g.c.W.N(s.ar)))}}
		}
	}
	return num(int64(g.c.W.N(6)))
}

// expr builds a number expression.
func (g *langGen) expr(sc *scope, d int) *expr {
	c := g.c.W
	if d <= 0 {
		switch c.Pick(8, 3, 2, 2) {
		case 0:
			if s := g.pick(sc, "d", nil); s != nil {
				return vr(s.name)
			}
		case 1:
			if s := g.pick(sc, "sCL", nil); s != nil {
				return vr(s.name)
			}
		case 2:
			if s := g.pick(sc, "a", func(s *sym) bool { return s.ar > 0 }); s != nil {
				return g.elem(sc, s)
			}
		}
		return g.literal()
	}
	switch c.Pick(3, 8, 8, 5, 3, 4, 2, 2, 1) {
	case 0:
		return g.expr(sc, 0)
	case 1:
		return bin(g.expr(sc, d-1), "*", g.expr(sc, d-1))
	case 2:
		return bin(g.expr(sc, d-1), "+", g.expr(sc, d-1))
	case 3:
		return bin(g.expr(sc, d-1), "-", g.expr(sc, d-1))
	case 4:
		return g.div(sc, d)
	case 5:
		if e := g.callExpr(sc, d); e != nil {
			return e
		}
		return bin(g.expr(sc, d-1), "+", g.expr(sc, d-1))
	case 6:
		o := []string{"+", "*"}[c.N(2)]
		l := []*expr{}
		for k := 3 + c.N(2); k > 0; k-- {
			l = append(l, g.expr(sc, 0))
		}
		return &expr{op: 'B', o: o, args: l}
	case 7:
		return call("addGateConstraint", g.expr(sc, d-1), g.expr(sc, d-1))
	default:
		if g.cfg.expo && c.Chance(1, 2) {
			g.pr.expo = true
			return call("scalarBaseMultiply", g.expr(sc, d-1))
		}
		return g.expr(sc, d-1)
	}
}

func (g *langGen) elem(sc *scope, s *sym) *expr {
	var ix *expr = num(int64(g.c.W.N(s.ar)))
	if st := g.pick(sc, "C", nil); st != nil && st.depth > 0 && st.depth <= s.ar && g.c.W.Chance(1, 2) {
		ix = vr(st.name) // a loop counter below depth
	} else if g.c.W.Chance(1, 6) {
		k := int64(g.c.W.N(s.ar))
		ix = bin(num(k+2), "-", num(2))
	}
	return &expr{op: 'i', s: s.name, args: []*expr{ix}}
}

func (g *langGen) div(sc *scope, d int) *expr {
	a := g.expr(sc, d-1)
	var b *expr
	switch g.c.W.Pick(3, 4, 1) {
	case 0:
		b = &expr{op: 'n', s: new(big.Int).Add(bi(1), red(bi(int64(g.c.W.N(40))))).String()}
	case 1:
		if s := g.pick(sc, "d", nil); s != nil {
			b = vr(s.name)
		}
	case 2:
		b = g.expr(sc, d-1)
	}
	if b == nil || !g.cfg.div {
		b = num(int64(1 + g.c.W.N(9)))
	}
	g.pr.div = true
	return bin(a, "/", b)
}

// callExpr calls a visible function that gives a number.
func (g *langGen) callExpr(sc *scope, d int) *expr {
	if g.budget <= 0 {
		return nil
	}
	f := g.pick(sc, "f", func(s *sym) bool { return !strings.Contains(s.sigs, "V") && !strings.Contains(s.sigs, "R") })
	if f == nil {
		return nil
	}
	g.budget--
	return g.callOf(sc, f, d)
}

// signature letters: d number, s small static, 1 function of one number, 2 function of two, V returns nothing, R returns a function
func (g *langGen) callOf(sc *scope, f *sym, d int) *expr {
	var args []*expr
	for _, k := range f.sigs {
		switch k {
		case 'd':
			args = append(args, g.expr(sc, d-1))
		case 's':
			if g.c.W.Chance(1, 3) {
				if s := g.pick(sc, "C", func(s *sym) bool { return s.depth > 0 && s.depth <= 4 }); s != nil {
					args = append(args, vr(s.name))
					continue
				}
			}
			args = append(args, num(int64(g.c.W.N(5))))
		case '1', '2':
			want := strings.Repeat("d", int(k-'0'))
			fs := g.pick(sc, "f", func(s *sym) bool { return s.sigs == want })
			if fs == nil {
				return num(int64(g.c.W.N(9)))
			}
			args = append(args, fnref(fs.name))
		}
	}
	return call(f.name, args...)
}

func (g *langGen) declName(sc *scope) string {
	if g.c.W.Chance(1, 3) {
		n := []string{"a", "b", "x", "y", "tmp", "k", "v_1", "Val"}[g.c.W.N(8)]
		if !sc.has(n) {
			return n
		}
	}
	return g.fresh([]string{"v", "w", "t"}[g.c.W.N(3)])
}

func (g *langGen) cond(sc *scope) *cond {
	if g.c.W.Chance(1, 6) { // a number beyond a machine word on a side or both
		s := [2]*expr{g.static(sc, 1), g.huge(sc)}
		switch g.c.W.N(3) {
		case 0:
			s[0], s[1] = s[1], s[0]
		case 1:
			s[0] = g.huge(sc)
			if g.c.W.Chance(1, 4) {
				s[1] = s[0]
			}
		}
		return &cond{s[0], s[1], []string{"==", "!=", "<", "<=", ">", ">="}[g.c.W.N(6)]}
	}
	return &cond{g.static(sc, 1), g.static(sc, 0), []string{"==", "!=", "<", "<=", ">", ">="}[g.c.W.N(6)]}
}

// block generates statements into a new scope; ret says whether it must end with a return of a number.
func (g *langGen) block(sc *scope, n, depth int, inMain bool) (l []*stmt) {
	c := g.c.W
	for ; n > 0; n-- {
		switch c.Pick(10, 4, 4, 3, 3, 2, 2, 2, 2, 1, 1, 1) {
		case 0:
			e := g.expr(sc, 1+c.N(2))
			nm := g.declName(sc)
			l = append(l, &stmt{k: 'v', name: nm, e: []*expr{e}})
			sc.syms = append(sc.syms, &sym{name: nm, kind: 'd'})
		case 1: // assign
			if s := g.pick(sc, "d", func(s *sym) bool { return !s.ro }); s != nil {
				l = append(l, &stmt{k: '=', name: s.name, e: []*expr{g.expr(sc, 1+c.N(2))}})
			} else {
				e := g.static(sc, 1)
				nm := g.declName(sc)
				l = append(l, &stmt{k: 'v', name: nm, e: []*expr{e}})
				sc.syms = append(sc.syms, &sym{name: nm, kind: 's'})
			}
		case 2: // static variable, declared or updated
			if s := g.pick(sc, "s", nil); s != nil && c.Chance(1, 2) {
				l = append(l, &stmt{k: '=', name: s.name, e: []*expr{g.static(sc, 1)}})
			} else if c.Chance(1, 8) {
				e := g.huge(sc)
				nm := g.declName(sc)
				l = append(l, &stmt{k: 'v', name: nm, e: []*expr{e}})
				sc.syms = append(sc.syms, &sym{name: nm, kind: 'L'})
			} else {
				e := g.static(sc, 1)
				nm := g.declName(sc)
				l = append(l, &stmt{k: 'v', name: nm, e: []*expr{e}})
				sc.syms = append(sc.syms, &sym{name: nm, kind: 's'})
			}
		case 3: // array
			if s := g.pick(sc, "a", func(s *sym) bool { return !s.sar && s.ar > 0 }); s != nil && c.Chance(1, 2) {
				ix := g.elem(sc, s).args[0]
				l = append(l, &stmt{k: '[', name: s.name, e: []*expr{ix, g.expr(sc, 1)}})
			} else {
				nm := g.fresh("arr")
				st := c.Chance(1, 4)
				var es []*expr
				k := 1 + c.N(4)
				if c.Chance(1, 30) {
					k += 8
				}
				for ; k > 0; k-- {
					if st {
						es = append(es, num(int64(c.N(5))))
					} else {
						es = append(es, g.expr(sc, c.N(2)))
					}
				}
				l = append(l, &stmt{k: 'a', name: nm, e: es})
				sc.syms = append(sc.syms, &sym{name: nm, kind: 'a', ar: len(es), sar: st})
			}
		case 4: // if chain
			if depth > 0 {
				s := &stmt{k: 'i', style: c.N(2)}
				ch := 1 + c.Pick(4, 2, 1)
				els := c.Chance(1, 2) || ch > 1
				for k := 0; k < ch; k++ {
					s.conds = append(s.conds, g.cond(sc))
				}
				if els {
					ch++
				}
				for k := 0; k < ch; k++ {
					sub := &scope{up: sc}
					s.body = append(s.body, g.block(sub, 1+c.N(2), depth-1, inMain))
				}
				l = append(l, s)
			}
		case 5: // for
			if depth > 0 && g.inLoop < 2 && !g.cfg.flat {
				iv := g.fresh("i")
				lim := 1 + c.N(3)
				step := 1 + c.N(2)
				from := c.N(2)
				l = append(l, &stmt{k: 'v', name: iv, e: []*expr{num(int64(from))}})
				sub := &scope{up: sc}
				sub.syms = append(sub.syms, &sym{name: iv, kind: 'C', depth: lim})
				g.inLoop++
				b := g.block(sub, 1+c.N(2), depth-1, inMain)
				g.inLoop--
				op, lm := "<", lim
				if c.Chance(1, 4) {
					op, lm = "<=", lim-1
				}
				l = append(l, &stmt{k: 'f', name: iv, conds: []*cond{{vr(iv), num(int64(lm)), op}}, e: []*expr{bin(vr(iv), "+", num(int64(step)))}, body: [][]*stmt{b}})
			}
		case 6: // local function
			if depth > 0 && g.inLoop == 0 {
				if depth > 1 && !g.cfg.flat && c.Chance(1, 5) {
					l = append(l, g.countdown(sc)...)
					continue
				}
				st := g.localFunc(sc, depth)
				l = append(l, st)
			}
		case 7: // call a void function or any function as a statement
			if c.Chance(1, 6) {
				var es []*expr
				for k := c.N(4); k > 0; k-- {
					es = append(es, g.expr(sc, c.N(2)))
				}
				l = append(l, &stmt{k: 'c', e: []*expr{call("BREAK", es...)}})
				continue
			}
			if f := g.pick(sc, "f", func(s *sym) bool { return !strings.Contains(s.sigs, "R") }); f != nil && g.budget > 0 {
				g.budget--
				e := g.callOf(sc, f, 1)
				if e.op == 'c' {
					l = append(l, &stmt{k: 'c', e: []*expr{e}})
				}
			}
		case 8: // preloaded or returned function
			if f := g.pick(sc, "f", func(s *sym) bool {
				return s.sigs == "dd" || s.sigs == "ddd" || s.sigs == "dR"
			}); f != nil && g.inLoop == 0 {
				nm := g.fresh("pre")
				rest := "d"
				if f.sigs == "ddd" {
					rest = "dd"
				}
				l = append(l, &stmt{k: 'v', name: nm, e: []*expr{call(f.name, g.expr(sc, 1))}})
				sc.syms = append(sc.syms, &sym{name: nm, kind: 'f', sigs: rest})
			}
		case 9:
			l = append(l, &stmt{k: '#', name: []string{"# note", "#", "", "#x = 1", "# { ( \""}[c.N(5)]})
		case 10: // an equality that always holds
			a, b, d := g.expr(sc, 0), g.expr(sc, 0), g.expr(sc, 0)
			l = append(l, &stmt{k: 'q', e: []*expr{
				bin(bin(a, "+", b), "*", d), bin(bin(a, "*", d), "+", bin(b, "*", d))}})
		case 11: // products that resemble each other
			l = append(l, g.twins(sc)...)
		}
	}
	return
}

// form is a linear combination of numbers of the program.
type form []struct {
	k int64
	v string
}

func (f form) expr() *expr {
	var e *expr
	for _, t := range f {
		var x *expr
		switch {
		case t.v == "":
			x = num(t.k)
		case t.k == 1:
			x = vr(t.v)
		default:
			x = bin(num(t.k), "*", vr(t.v))
		}
		if e == nil {
			e = x
		} else {
			e = bin(e, "+", x)
		}
	}
	return e
}

// twins declares products of linear combinations that differ in a detail.
func (g *langGen) twins(sc *scope) (l []*stmt) {
	c := g.c.W
	var names []string
	for _, s := range sc.visible() {
		if s.kind == 'd' {
			names = append(names, s.name)
		}
	}
	if len(names) == 0 {
		return
	}
	mk := func() (f form) {
		p := permute(c, len(names))
		for k := 0; k < 1+c.N(3) && k < len(p); k++ {
			kk := []int64{1, 1, 2, 3, 12, 121, 23, 11, 112, 10}[c.N(10)]
			f = append(f, struct {
				k int64
				v string
			}{kk, names[p[k]]})
		}
		if c.Chance(1, 4) {
			f = append(f, struct {
				k int64
				v string
			}{int64(1 + c.N(12)), ""})
		}
		return
	}
	a, b := mk(), mk()
	emit := func() {
		nm := g.fresh("tw")
		l = append(l, &stmt{k: 'v', name: nm, e: []*expr{bin(a.expr(), "*", b.expr())}})
		sc.syms = append(sc.syms, &sym{name: nm, kind: 'd'})
	}
	emit()
	for n := 1 + c.N(2); n > 0; n-- {
		f := append(form{}, a...)
		i := c.N(len(f))
		switch c.Pick(6, 2, 1, 1, 1, 1, 1, 1) {
		case 0: // digits move between the name and the factor
			var opt []form
			for i := range f {
				for _, o := range names {
					rest := strings.TrimPrefix(f[i].v, o)
					if rest != f[i].v && strings.Trim(rest, "0123456789") == "" && rest != "" && rest[0] != '0' && o != "" {
						h := append(form{}, f...)
						k, _ := new(big.Int).SetString(fmt.Sprint(rest, f[i].k), 10)
						if k.IsInt64() {
							h[i].v, h[i].k = o, k.Int64()
							opt = append(opt, h)
						}
					}
					if f[i].v != "" && strings.HasPrefix(o, f[i].v) {
						ds := fmt.Sprint(f[i].k)
						more := strings.TrimPrefix(o, f[i].v)
						if more != "" && len(ds) > len(more) && strings.HasPrefix(ds, more) && ds[len(more)] != '0' {
							h := append(form{}, f...)
							k, _ := new(big.Int).SetString(ds[len(more):], 10)
							h[i].v, h[i].k = o, k.Int64()
							opt = append(opt, h)
						}
					}
				}
			}
			if len(opt) > 0 {
				f = opt[c.N(len(opt))]
			} else {
				f[i].k++
			}
		case 1: // another factor
			f[i].k = []int64{1, 2, 12, 21, 3}[c.N(5)]
		case 2: // factors change places
			j := c.N(len(f))
			f[i].k, f[j].k = f[j].k, f[i].k
		case 3: // another number
			f[i].v = names[c.N(len(names))]
		case 4: // other order
			for x, y := 0, len(f)-1; x < y; x, y = x+1, y-1 {
				f[x], f[y] = f[y], f[x]
			}
		case 5: // scaled
			for x := range f {
				f[x].k *= 2
			}
		case 6: // sides change places
			a, b = b, a
			f = a
		case 7: // a square
			b = f
		}
		a = f
		emit()
	}
	return
}

// countdown is a function without parameters that calls itself on an outer number.
func (g *langGen) countdown(sc *scope) []*stmt {
	c := g.c.W
	n, f, k, r := g.fresh("n"), g.fresh("cf"), g.declName(sc), g.fresh("r")
	sub := &scope{up: sc, fn: true}
	sub.syms = append(sub.syms, &sym{name: n, kind: 'C'})
	first := []*expr{vr(n), bin(vr(n), "*", num(int64(2+c.N(5)))), g.expr(sub, 1)}[c.N(3)]
	ret := func(e *expr) *stmt { return &stmt{k: 'r', e: []*expr{e}} }
	dec := &stmt{k: '=', name: n, e: []*expr{bin(vr(n), "-", num(1))}}
	rec := &stmt{k: 'v', name: r, e: []*expr{call(f)}}
	use := ret(bin(bin(vr(k), []string{"*", "+"}[c.N(2)], num(int64(2+c.N(9)))), []string{"+", "-", "*"}[c.N(3)], vr(r)))
	fd := &fndef{name: f, body: []*stmt{{k: 'v', name: k, e: []*expr{first}}}}
	cn := &cond{vr(n), num(1), ">"}
	if c.Chance(1, 2) {
		fd.body = append(fd.body, &stmt{k: 'i', conds: []*cond{cn}, body: [][]*stmt{{dec, rec, use}}}, ret(vr(k)))
	} else {
		fd.body = append(fd.body, &stmt{k: 'i', conds: []*cond{{vr(n), num(1), "<="}}, body: [][]*stmt{{ret(vr(k))}}}, dec, rec, use)
	}
	sc.syms = append(sc.syms, &sym{name: n, kind: 's'}, &sym{name: f, kind: 'f'})
	return []*stmt{{k: 'v', name: n, e: []*expr{num(int64(1 + c.N(4)))}}, {k: 'F', fn: fd, style: c.N(2)}}
}

func (g *langGen) localFunc(sc *scope, depth int) *stmt {
	c := g.c.W
	f := &fndef{name: g.fresh("lf")}
	sub := &scope{up: sc, fn: true}
	sig := ""
	for k := []int{1, 2, 1, 2, 1, 2, 0}[c.N(7)]; k > 0; k-- {
		nm := []string{"x", "y", "a", "b", "z", "p"}[c.N(6)]
		dup := false
		for _, p := range f.params {
			dup = dup || p.name == nm
		}
		if dup {
			nm = g.fresh("p")
		}
		f.params = append(f.params, param{name: nm})
		sub.syms = append(sub.syms, &sym{name: nm, kind: 'd'})
		sig += "d"
	}
	// inside a function, outer static variables may have changed meaning; they stay usable
	f.body = g.block(sub, c.N(3), 1, false)
	if c.Chance(1, 8) && depth > 1 {
		// returns a function
		in := g.localFunc(sub, 0)
		f.body = append(f.body, in, &stmt{k: 'r', e: []*expr{fnref(in.fn.name)}})
		if len(in.fn.params) != 1 || sig != "d" {
			// keep it simple: only one-one
			f.body = f.body[:len(f.body)-1]
			f.body = append(f.body, &stmt{k: 'r', e: []*expr{g.expr(sub, 1)}})
		} else {
			sig = "dR"
		}
	} else if c.Chance(1, 10) {
		sig += "V"
		if c.Chance(1, 2) {
			f.body = append(f.body, &stmt{k: 'r'})
		}
	} else {
		f.body = append(f.body, &stmt{k: 'r', style: c.N(2), e: []*expr{g.expr(sub, 1+c.N(2))}})
	}
	sc.syms = append(sc.syms, &sym{name: f.name, kind: 'f', sigs: sig})
	return &stmt{k: 'F', fn: f, style: c.N(2)}
}

// topFunc generates a function at the top level from a template.
func (g *langGen) topFunc(gl *scope) {
	c := g.c.W
	f := &fndef{name: g.fresh([]string{"f", "fun", "g"}[c.N(3)])}
	sub := &scope{up: gl, fn: true}
	sig := ""
	add := func(k byte) string {
		nm := []string{"x", "y", "a", "b", "n", "c"}[c.N(6)]
		for _, p := range f.params {
			if p.name == nm {
				nm = g.fresh("q")
				break
			}
		}
		f.params = append(f.params, param{name: nm})
		kind := k
		if k == 's' {
			kind = 'C'
		}
		if k == 'd' || k == 's' {
			sub.syms = append(sub.syms, &sym{name: nm, kind: kind})
		} else {
			sub.syms = append(sub.syms, &sym{name: nm, kind: 'f', sigs: strings.Repeat("d", int(k-'0'))})
		}
		sig += string(k)
		return nm
	}
	ret := func(e *expr) *stmt { return &stmt{k: 'r', e: []*expr{e}, style: c.N(2)} }
	tpl := c.Pick(6, 3, 2, 3, 2, 2, 2, 2)
	if g.cfg.flat && tpl != 3 && tpl != 6 {
		tpl = 0
	}
	switch tpl {
	case 0: // plain
		for k := 1 + c.N(3); k > 0; k-- {
			add('d')
		}
		f.body = g.block(sub, c.N(3), 1, false)
		f.body = append(f.body, ret(g.expr(sub, 1+c.N(2))))
	case 1: // recursion, with early return
		n := add('s')
		x := add('d')
		base := g.expr(&scope{syms: []*sym{{name: x, kind: 'd'}}}, c.N(2))
		step := bin(g.expr(sub, 1), []string{"+", "*", "-"}[c.N(3)], call(f.name, bin(vr(n), "-", num(1)), g.expr(sub, c.N(2))))
		switch c.N(3) {
		case 0:
			f.body = []*stmt{{k: 'i', conds: []*cond{{vr(n), num(0), "=="}}, body: [][]*stmt{{ret(base)}}}, ret(step)}
		case 1:
			f.body = []*stmt{{k: 'i', conds: []*cond{{vr(n), num(0), "<="}}, body: [][]*stmt{{ret(base)}, {ret(step)}}}}
		case 2:
			f.body = []*stmt{{k: 'i', conds: []*cond{{vr(n), num(0), "=="}, {vr(n), num(1), "=="}}, body: [][]*stmt{{ret(base)}, {ret(vr(x))}, {ret(step)}}}}
		}
	case 2: // double recursion
		n := add('s')
		x := add('d')
		f.body = []*stmt{
			{k: 'i', conds: []*cond{{vr(n), num(0), "=="}}, body: [][]*stmt{{ret(g.expr(sub, 0))}}},
			{k: 'i', conds: []*cond{{vr(n), num(1), "=="}}, body: [][]*stmt{{ret(vr(x))}}},
			ret(bin(call(f.name, bin(vr(n), "-", num(1)), vr(x)), []string{"+", "*"}[c.N(2)], call(f.name, bin(vr(n), "-", num(2)), vr(x)))),
		}
	case 3: // function argument
		k := byte('1' + c.N(2))
		h := add(k)
		x := add('d')
		e := call(h, vr(x))
		if k == '2' {
			e = call(h, vr(x), g.expr(sub, c.N(2)))
		}
		f.body = g.block(sub, c.N(2), 1, false)
		if c.Chance(1, 2) {
			e2 := call(h, e)
			if k == '2' {
				e2 = call(h, e, vr(x))
			}
			e = e2
		}
		f.body = append(f.body, ret(e))
	case 4: // loop with an array, as the samples do
		n := add('s')
		x := add('d')
		i := g.fresh("i")
		arr := g.fresh("dyn")
		o := []string{"+", "*"}[c.N(2)]
		f.body = []*stmt{
			{k: 'a', name: arr, e: []*expr{vr(x), g.expr(sub, 0)}},
			{k: 'v', name: i, e: []*expr{num(0)}},
			{k: 'f', name: i, conds: []*cond{{vr(i), vr(n), "<"}}, e: []*expr{bin(vr(i), "+", num(1))}, body: [][]*stmt{{
				{k: 'v', name: "nx", e: []*expr{bin(&expr{op: 'i', s: arr, args: []*expr{num(0)}}, o, &expr{op: 'i', s: arr, args: []*expr{num(1)}})}},
				{k: '[', name: arr, e: []*expr{num(0), &expr{op: 'i', s: arr, args: []*expr{num(1)}}}},
				{k: '[', name: arr, e: []*expr{num(1), vr("nx")}},
			}}},
			ret(&expr{op: 'i', s: arr, args: []*expr{num(1)}}),
		}
	case 5: // a return inside a loop
		n := add('s')
		x := add('d')
		i := g.fresh("i")
		f.body = []*stmt{
			{k: 'v', name: i, e: []*expr{num(0)}},
			{k: 'f', name: i, conds: []*cond{{vr(i), num(4), "<"}}, e: []*expr{bin(vr(i), "+", num(1))}, body: [][]*stmt{{
				{k: 'i', conds: []*cond{{vr(i), vr(n), "=="}}, body: [][]*stmt{{ret(bin(vr(x), "*", vr(i)))}}},
				{k: '=', name: x, e: []*expr{bin(vr(x), "*", g.expr(sub, 0))}},
			}}},
			ret(g.expr(sub, 1)),
		}
	case 6: // array parameters
		nm := "m"
		dims := []int{1 + c.N(2)}
		if c.Chance(1, 3) {
			dims = append(dims, 1+c.N(2))
		} else if c.Chance(1, 10) {
			dims[0] += 10
		}
		p := param{name: nm, dims: dims}
		f.params = append(f.params, p)
		var e *expr
		for _, fl := range p.flat() {
			sig += "d"
			var ixs []*expr
			for _, t := range strings.Split(strings.TrimSuffix(fl[2:], "]"), "][") {
				ixs = append(ixs, &expr{op: 'n', s: t})
			}
			el := &expr{op: 'i', s: nm, args: ixs}
			if e == nil {
				e = el
			} else {
				e = bin(e, []string{"*", "+", "-"}[c.N(3)], el)
			}
		}
		f.body = []*stmt{ret(e)}
	case 7: // iterate: calls a function for its effect
		from, to, h := add('s'), add('s'), add('1')
		_ = to
		f.body = []*stmt{
			{k: 'i', conds: []*cond{{vr(from), num(4), ">="}}, body: [][]*stmt{{{k: 'r'}}}},
			{k: 'c', e: []*expr{call(h, vr(from))}},
			{k: 'c', e: []*expr{call(f.name, bin(vr(from), "+", num(1)), vr(to), fnref(h))}},
		}
		sig += "V"
	}
	gl.syms = append(gl.syms, &sym{name: f.name, kind: 'f', sigs: sig})
	g.pr.funcs = append(g.pr.funcs, f)
}

// genProgram draws a program of the language.
func genProgram(c *simrt.Choices, cfg langCfg) *program {
	g := &langGen{c: c, cfg: cfg, pr: &program{hints: map[string]bool{}}, budget: 8}
	if cfg.small {
		g.budget = 3
	}
	w := c.W
	if cfg.large > 0 && w.Chance(1, cfg.large) {
		cfg.stmts *= 8
		g.budget = 40
	}
	gl := &scope{}
	for k := w.Pick(5, 2, 1); k > 0; k-- {
		if w.Chance(1, 2) {
			n := g.fresh("gc")
			g.pr.globals = append(g.pr.globals, &stmt{k: 'v', name: n, e: []*expr{num(int64(w.N(9)))}})
			gl.syms = append(gl.syms, &sym{name: n, kind: 'C'})
		} else {
			n := g.fresh("ga")
			var es []*expr
			for k := 1 + w.N(3); k > 0; k-- {
				es = append(es, num(int64(w.N(9))))
			}
			g.pr.globals = append(g.pr.globals, &stmt{k: 'a', name: n, e: es})
			gl.syms = append(gl.syms, &sym{name: n, kind: 'a', ar: len(es), sar: true})
		}
	}
	nf := w.N(4)
	if cfg.small {
		nf = w.N(3)
	}
	for ; nf > 0; nf-- {
		g.topFunc(gl)
	}
	m := &fndef{name: "main"}
	sc := &scope{up: gl, fn: true}
	g.mainSc = sc
	if cfg.long && w.Chance(1, 2500) {
		// more calls than the compiler allows to be nested
		n, x, f := "n", "x", g.fresh("fib")
		one := func(k int64) *expr { return call(f, bin(vr(n), "-", num(k)), vr(x)) }
		fd := &fndef{name: f, params: []param{{name: n}, {name: x}}, body: []*stmt{
			{k: 'i', conds: []*cond{{vr(n), num(2), "<"}}, body: [][]*stmt{{{k: 'r', e: []*expr{vr(x)}}}}},
			{k: 'r', e: []*expr{bin(one(1), "+", one(2))}}}}
		g.pr.funcs = append(g.pr.funcs, fd)
		g.pr.long = &stmt{k: 'v', name: g.fresh("long"), e: []*expr{call(f, num(int64(18+w.N(2))), num(int64(w.N(9))))}}
	}
	family := w.Chance(1, 8) // names that begin with one another
	if family {
		for _, n := range [][]string{{"x", "x1"}, {"x", "x1", "x12"}, {"x1", "x11"}, {"in", "in2", "in1"}}[w.N(4)] {
			m.params = append(m.params, param{name: n})
			g.pr.inputs = append(g.pr.inputs, n)
			sc.syms = append(sc.syms, &sym{name: n, kind: 'd'})
		}
		g.n += 2
	}
	for k := 1 + w.N(3); k > 0; k-- {
		p := param{name: g.fresh("in")}
		if w.Chance(1, 4) {
			p.name = []string{"x", "y", "z", "a"}[w.N(4)]
			dup := sc.has(p.name)
			for _, q := range m.params {
				dup = dup || q.name == p.name
			}
			if dup {
				p.name = g.fresh("in")
			}
		}
		if w.Chance(1, 6) {
			p.dims = []int{1 + w.N(2)}
			switch {
			case w.Chance(1, 8): // two digits
				p.dims[0] += 9 + w.N(3)
			case w.Chance(1, 3):
				p.dims = append(p.dims, 1+w.N(2))
				if w.Chance(1, 12) {
					p.dims[w.N(2)] += 9
				}
			}
		}
		m.params = append(m.params, p)
		g.pr.inputs = append(g.pr.inputs, p.flat()...)
		if p.dims == nil {
			sc.syms = append(sc.syms, &sym{name: p.name, kind: 'd'})
		} else if len(p.dims) == 1 {
			sc.syms = append(sc.syms, &sym{name: p.name, kind: 'a', ar: p.dims[0]})
		} else {
			sc.syms = append(sc.syms, &sym{name: p.name + "[0]", kind: 'a', ar: p.dims[1]})
		}
	}
	nh := 0
	if !cfg.noHint {
		nh = 1 + w.Pick(3, 1)
	}
	var hints []string
	for k := 0; k < nh; k++ {
		h := fmt.Sprintf("out%d", k)
		hints = append(hints, h)
		g.pr.hints[h] = true
		m.params = append(m.params, param{name: h})
		g.pr.inputs = append(g.pr.inputs, h)
	}
	n := 1 + w.N(cfg.stmts)
	if cfg.split && w.Chance(1, 30) {
		var l []*sym
		for _, s := range sc.syms {
			if s.kind == 'd' {
				l = append(l, s)
			}
		}
		if len(l) > 0 {
			s := l[w.N(len(l))]
			g.pr.split = true
			k := w.N(n + 1)
			n -= k
			how := w.N(4)
			s.ro = how >= 2
			body := g.block(sc, k, 2, true)
			arg := vr(s.name)
			bits := s.name
			var arrs []*sym
			for _, a := range sc.syms {
				if a.kind == 'a' && a.ar > 0 && !a.sar && !strings.Contains(a.name, "[") && len(m.params) > 0 && isParam(m, a.name) {
					arrs = append(arrs, a)
				}
			}
			switch {
			case how < 2: // a computed value
				t := l[w.N(len(l))]
				nm := g.fresh("sp")
				pre := &stmt{k: 'v', name: nm, e: []*expr{bin(vr(s.name), "*", vr(t.name))}}
				m.body = append(m.body, pre)
				sc.syms = append(sc.syms, &sym{name: nm, kind: 'd', ro: true})
				arg, bits = vr(nm), nm
			case len(arrs) > 0 && k == 0: // an element
				a := arrs[w.N(len(arrs))]
				arg = &expr{op: 'i', s: a.name, args: []*expr{num(int64(w.N(a.ar)))}}
				bits = arg.text(true)
			}
			m.body = append(m.body, body...)
			m.body = append(m.body, &stmt{k: 's', e: []*expr{arg}})
			sc.syms = append(sc.syms, &sym{name: bits, kind: 'a', ar: 1 + w.N(254), ro: true})
		}
	}
	if family && w.Chance(3, 4) {
		m.body = append(m.body, g.twins(sc)...)
	}
	if g.pr.long != nil {
		m.body = append(m.body, g.pr.long)
		sc.syms = append(sc.syms, &sym{name: g.pr.long.name, kind: 'C'})
	}
	m.body = append(m.body, g.block(sc, n, 2, true)...)
	var chain *expr
	if cfg.tall > 0 {
		for _, s := range sc.syms {
			if s.kind == 'd' && isParam(m, s.name) {
				chain = vr(s.name)
				for k := 0; k < cfg.tall; k++ {
					nm := g.fresh("ch")
					m.body = append(m.body, &stmt{k: 'v', name: nm, e: []*expr{bin(chain, "*", bin(vr(s.name), "+", num(int64(k+1))))}})
					chain = vr(nm)
				}
				break
			}
		}
	}
	for _, h := range hints {
		e := g.expr(sc, 1+w.N(3))
		if w.Chance(1, 2) {
			m.body = append(m.body, &stmt{k: 'q', e: []*expr{e, vr(h)}})
		} else {
			m.body = append(m.body, &stmt{k: 'q', e: []*expr{vr(h), e}})
		}
		sc.syms = append(sc.syms, &sym{name: h, kind: 'd', ro: true})
		if w.Chance(1, 3) {
			m.body = append(m.body, g.block(sc, 1+w.N(2), 1, true)...)
		}
	}
	if chain != nil {
		m.body = append(m.body, &stmt{k: 'r', e: []*expr{bin(chain, "*", vr(chain.s))}})
	} else if w.Chance(2, 3) || cfg.noHint {
		m.body = append(m.body, &stmt{k: 'r', e: []*expr{g.expr(sc, 1+w.N(2))}})
	} else if w.Chance(1, 2) {
		m.body = append(m.body, &stmt{k: 'r'})
	}
	g.pr.funcs = append(g.pr.funcs, m)
	// public inputs: any subset in any order
	idx := permute(w, len(g.pr.inputs))
	np := w.N(len(g.pr.inputs) + 1)
	if w.Chance(1, 8) {
		np = 0
	}
	for _, k := range idx[:np] {
		g.pr.public = append(g.pr.public, g.pr.inputs[k])
	}
	tot := len(g.pr.funcs) + len(g.pr.globals)
	if w.Chance(1, 2) {
		g.pr.order = permute(w, tot)
	} else {
		for k := tot - 1; k >= 0; k-- {
			g.pr.order = append(g.pr.order, k)
		}
	}
	return g.pr
}

func isParam(f *fndef, n string) bool {
	for _, p := range f.params {
		if p.name == n {
			return true
		}
	}
	return false
}

func permute(s *simrt.Stream, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - s.N(i+1) // 0 keeps the order
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// drawInputs draws an input vector; hints are nil.
func (p *program) drawInputs(c *simrt.Choices) []*big.Int {
	l := make([]*big.Int, len(p.inputs))
	for i, n := range p.inputs {
		switch {
		case p.hints[n]:
		case p.split && c.W.Chance(1, 3):
			l[i] = drawRim(c)
		default:
			l[i] = drawField(c)
		}
	}
	return l
}
