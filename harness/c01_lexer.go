package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// refTok and refLex are an independent statement of the token grammar.
type refTok struct {
	T cc.TokenType
	S string
}

// refLex returns the tokens of src; ok is false when the text contains
// something that is not part of the language (the tokens before it count).
func refLex(src string) (toks []refTok, ok bool) {
	kw := map[string]cc.TokenType{"return": cc.RETURN, "var": cc.VARIABLE_DECLARE, "if": cc.IF, "else": cc.ELSE, "for": cc.FOR, "func": cc.FUNCTION_DEFINE, "import": cc.IMPORT, "public": cc.PUBLIC}
	one := map[byte]cc.TokenType{'=': cc.AssignmentOperatorToken, '-': cc.ArithmeticOperatorToken, '+': cc.ArithmeticOperatorToken, '*': cc.ArithmeticOperatorToken, '/': cc.ArithmeticOperatorToken, '>': cc.BinaryComperatorToken, '<': cc.BinaryComperatorToken}
	two := map[string]cc.TokenType{"-=": cc.AssignmentOperatorToken, "+=": cc.AssignmentOperatorToken, "*=": cc.AssignmentOperatorToken, "/=": cc.AssignmentOperatorToken,
		"||": cc.BooleanOperatorToken, "&&": cc.BooleanOperatorToken, ">>": cc.BitOperatorToken, "<<": cc.BitOperatorToken,
		"==": cc.BinaryComperatorToken, "!=": cc.BinaryComperatorToken, ">=": cc.BinaryComperatorToken, "<=": cc.BinaryComperatorToken}
	word := func(b byte) bool {
		return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	for i := 0; i < len(src); {
		b := src[i]
		j := i + 1
		switch {
		case b == ' ' || b == '\t' || b == '\r':
		case b >= '0' && b <= '9':
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			toks = append(toks, refTok{cc.NumberToken, src[i:j]})
		case strings.IndexByte("():,;\n{}[]", b) >= 0:
			toks = append(toks, refTok{cc.SyntaxToken, src[i:j]})
		case b == '"':
			k := strings.IndexByte(src[j:], '"')
			if k < 0 {
				return toks, false
			}
			toks = append(toks, refTok{cc.IDENTIFIER_VARIABLE, src[j : j+k]})
			j += k + 1
		case b == '#':
			for j < len(src) && src[j] != '\n' {
				j++
			}
			toks = append(toks, refTok{cc.CommentToken, src[i:j]})
		case j < len(src) && two[src[i:j+1]] != 0:
			j++
			toks = append(toks, refTok{two[src[i:j]], src[i:j]})
		case one[b] != 0:
			toks = append(toks, refTok{one[b], src[i:j]})
		case word(b):
			for j < len(src) && word(src[j]) {
				j++
			}
			w := src[i:j]
			t := cc.IDENTIFIER_VARIABLE
			if k, is := kw[w]; is {
				t = k
			} else if j < len(src) && src[j] == '(' {
				t = cc.FUNCTION_CALL
			}
			toks = append(toks, refTok{t, w})
		default:
			return toks, false
		}
		i = j
	}
	return toks, true
}

// collapse is what the reading side delivers: runs of newlines are one newline.
func collapse(l []refTok) (o []refTok) {
	for _, t := range l {
		if t.S == "\n" && len(o) > 0 && o[len(o)-1].S == "\n" {
			continue
		}
		o = append(o, t)
	}
	return
}

var lexWords = []string{"return", "var", "if", "else", "for", "func", "import", "public", "main", "x", "y1", "_a", "foo", "returned", "va", "iff", "a_b", "equal", "X9_", "forx"}
var lexOps = []string{"=", "-=", "+=", "*=", "/=", "-", "+", "*", "/", "||", "&&", ">>", "<<", "==", "!=", ">", ">=", "<", "<="}

// length is a number of repetitions, now and then above what a fixed buffer would hold.
func length(c *simrt.Choices) int {
	switch c.W.Pick(6, 3, 1) {
	case 0:
		return c.W.N(12)
	case 1:
		return 20 + c.W.N(80)
	}
	return []int{255, 256, 1024, 4096, 5000}[c.W.N(5)]
}

// anyWord is an identifier of any letters.
func anyWord(c *simrt.Choices) string {
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	b := []byte{first[c.W.N(len(first))]}
	n := 1 + c.W.N(6)
	if c.W.Chance(1, 20) {
		n = length(c)
	}
	all := first + "0123456789"
	for k := 0; k < n; k++ {
		b = append(b, all[c.W.N(len(all))])
	}
	return string(b)
}

func genLexSource(c *simrt.Choices) string {
	var b strings.Builder
	n := c.W.N(40)
	if c.W.Chance(1, 12) {
		n = 100 + c.W.N(400)
		if c.W.Chance(1, 12) {
			n = 1500 + c.W.N(9000)
		}
	}
	dense := c.W.Chance(1, 4) // no separators: more tokens than half the text
	weird := c.W.Chance(1, 4)
	for i := 0; i < n; i++ {
		switch c.W.Pick(6, 4, 6, 5, 3, 2, 1) {
		case 0:
			if c.W.Chance(1, 4) {
				b.WriteString(anyWord(c))
			} else {
				b.WriteString(lexWords[c.W.N(len(lexWords))])
			}
			if c.W.Chance(1, 4) {
				b.WriteByte('(')
			}
		case 1:
			b.WriteString(fmt.Sprint(c.W.N(100000)))
			if c.W.Chance(1, 8) {
				b.WriteString(strings.Repeat(fmt.Sprint(c.W.N(1000)), length(c)))
			}
		case 2:
			b.WriteByte("():,;\n{}[]"[c.W.N(10)])
		case 3:
			b.WriteString(lexOps[c.W.N(len(lexOps))])
		case 4:
			if c.W.Chance(1, 8) {
				b.WriteString(strings.Repeat([]string{"\n", " ", "\n ", "\t"}[c.W.N(4)], length(c)))
			}
			b.WriteString(strings.Repeat("\n", 1+c.W.N(4)))
		case 5:
			b.WriteString("#" + []string{"", " a comment", "x=1 \"q\"", " ünï©ode ✓", "# \r\t", "\xff\xfe\x80"}[c.W.N(6)])
			if c.W.Chance(1, 8) {
				b.WriteString(strings.Repeat("x ", length(c)))
			}
			if !weird || c.W.Chance(3, 4) {
				b.WriteByte('\n')
			}
		case 6:
			b.WriteString("\"" + []string{"", "lib/a.txt", "x y # z", "ünï", "\xff\x80z", "()=="}[c.W.N(6)] + "\"")
		}
		if !dense {
			b.WriteString([]string{" ", "", "  ", "\t", "\r", " \t "}[c.W.Pick(6, 4, 2, 2, 1, 1)])
		}
		if weird && c.W.Chance(1, 12) {
			b.WriteString([]string{"@", "&", "|", "!", "é", "\x00", "\xff", "\"", "$", "~", ".", "\"abc", "\xe2\x82", "'", "\\", "\u00a0", "\u2028", "\ufeff", "\v", "\f", string(rune(c.W.N(128)))}[c.W.N(21)])
		}
	}
	if c.W.Chance(1, 6) {
		b.WriteString([]string{" ", "\t", " \t\r", "\n ", "#end"}[c.W.N(5)])
	}
	return b.String()
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 300000, Thorough: 20000000,
		Rule:       "A run draws 1-4 source texts (grammar-shaped token soup with or without separators, newline runs, comments, strings, foreign and malformed UTF-8 characters, trailing blanks; up to ~500 tokens), scans them at the same time in one process, asynchronously or synchronously, with consumers that read at their own pace, stall, or walk away, under a random schedule. Non-trivial: at least one asynchronous scan of a text with 5 or more tokens was read to its end.",
		Real:       []string{"circuitcompiler lexer (all of it), its goroutine and its channel discipline"},
		Stub:       []string{"goroutine scheduler, channels (simulated)"},
		Assume:     []string{"the reference token grammar written in harness/c01_lexer.go", "a string literal whose whole content is a newline is left out (its collapsing with neighbouring newlines is unspecified)"},
		FaultKinds: []string{"stalled-client", "consumer-walks-away"},
		Run:        runC01,
	})
}

func runC01(x *X) {
	c := x.C
	n := 1 + c.W.Pick(4, 3, 2, 1)
	srcs := make([]string, n)
	sync := make([]bool, n)
	quit := make([]int, n)
	for i := range srcs {
		if i > 0 && c.W.Chance(1, 4) {
			srcs[i] = srcs[0]
		} else {
			srcs[i] = genLexSource(c)
		}
		sync[i] = c.W.Chance(1, 3)
		quit[i] = -1
		if !sync[i] && c.F.Chance(1, 12) {
			quit[i] = c.F.N(6)
		}
		x.Work(srcs[i])
		x.Work(fmt.Sprint(sync[i], quit[i]))
	}
	x.Sample("%d scans: %q sync=%v", n, srcs, sync)
	leak := false
	for i := range quit {
		leak = leak || quit[i] >= 0
	}
	x.Sim(Opt{LeakOK: leak}, func() {
		fs := make([]func(), n)
		for i := range fs {
			i := i
			fs[i] = func() { lexClient(x, srcs[i], sync[i], quit[i]) }
		}
		for i, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("scan-panic", "scan-panic", "scanning %q: the caller got a panic: %v", srcs[i], o.Panic)
			}
		}
	})
}

func lexClient(x *X, src string, sync bool, quit int) {
	w := simrt.Cur()
	raw, ok := refLex(src)
	for _, t := range raw {
		if t.S == "\n" && t.T != cc.SyntaxToken {
			return
		}
	}
	want := collapse(raw)
	mode := "asynchronous"
	var msgs []string
	l := cc.New(src, cc.ProbablyWhitespaceState)
	l.ErrorHandler = func(e string) { msgs = append(msgs, e) }
	if sync {
		mode = "synchronous"
		l.StartSync()
	} else {
		l.Start()
	}
	var got []refTok
	for {
		if quit >= 0 && len(got) == quit {
			w.Fault("consumer-walks-away")
			return
		}
		t, done := l.NextToken()
		if done {
			if t != nil {
				x.Fail("token-after-end", "end", "end of stream came with a token %v", *t)
			}
			break
		}
		got = append(got, refTok{t.Type, t.Identifier})
		if len(got) > len(want)+3 {
			break
		}
		stall(1, 40)
	}
	for k := 0; k < len(got) || k < len(want); k++ {
		if k >= len(got) || k >= len(want) || got[k] != want[k] {
			x.Fail("token-stream", "token-stream", "%s scan of %q: token %d is %s, the text says %s", mode, src, k, tokAt(got, k), tokAt(want, k))
			return
		}
	}
	if ok && (len(msgs) > 0 || l.Err != nil) {
		x.Fail("false-error", "false-error", "%s scan of %q reports %v", mode, src, msgs)
	}
	if !ok {
		w.Probe("foreign-character")
		if len(msgs) == 0 || l.Err == nil {
			x.Fail("missed-error", "missed-error", "%s scan of %q stops before the end without reporting anything", mode, src)
		}
	}
	// the end is final
	for k := 0; k < 2; k++ {
		if t, done := l.NextToken(); !done || t != nil {
			x.Fail("token-after-end", "end", "%s scan of %q goes on after its end", mode, src)
		}
	}
	if !sync && len(want) >= 5 {
		x.Nontrivial()
	}
	if len(raw) > len(src)/2 {
		w.Probe("more-tokens-than-half-the-text")
	}
	if !utf8.ValidString(src) {
		w.Probe("malformed-utf8")
	}
	if len(want) < len(raw) {
		w.Probe("newline-run")
	}
}

func tokAt(l []refTok, k int) string {
	if k >= len(l) {
		return "end of stream"
	}
	return fmt.Sprintf("(%q type %d)", l[k].S, int(l[k].T))
}
