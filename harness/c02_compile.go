package main

import (
	"fmt"
	"math/big"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C02", Quick: 30000, Thorough: 3000000,
		Rule:       "A run draws 1-2 programs of the circuit language (globals, functions, recursion, loops with and without return inside, if chains, arrays and array arguments, function arguments, preloaded and returned functions, closures that change outer variables, shadowing, divisions, equalities, point multiplications, static numbers beyond a machine word, public subsets in any order, any order of declarations, comments) and compiles each alone in a fresh simulated process without preemption. Then 1-4 clients compile them in one process at the same time and after each other under a random schedule and random walking order of associative containers, with stalls. Every result is compared constraint by constraint; for 1-3 input vectors the circuit's answer is compared with an interpreter of the program text, in the dense and the sparse representation. Non-trivial: at least one compiled system has two constraints and one input vector was decided.",
		Real:       []string{"circuitcompiler: lexer, parser, compiler, gates, constraint generation, witness calculation", "utils: field, ordered map", "pairing: scalar multiplication of the generator"},
		Stub:       []string{"goroutine scheduler, channels, map iteration order (simulated)"},
		Assume:     []string{"reference interpreter and program generator in harness/lang.go: operators of different kinds are always parenthesised, since the language documents no precedence", "static division by zero and divisors that cancel to a constant zero are left out"},
		FaultKinds: []string{"stalled-client"},
		Run:        runC02,
	})
}

type compiled struct {
	src    string
	dense  string
	sparse string
	sys    *csys
}

func dumpArt(a *art) (d compiled) {
	if a.dense != nil {
		d.sys = csysDense(a.prog, a.dense)
		d.dense = d.sys.String()
	}
	if a.sparse != nil {
		s := csysSparse(a.prog, a.sparse)
		d.sparse = s.String()
		if d.sys == nil {
			d.sys = s
		}
	}
	return
}

// refCompile compiles src alone in a fresh process, in the simplest schedule.
func refCompile(x *X, src string) (c compiled, ok bool) {
	var r []Outcome
	x.Sim(Opt{NoPreempt: true}, func() {
		r = Join(func() { c = dumpArt(compileArt(src, 3)) })
	})
	if x.Failed() {
		return
	}
	if r[0].Panic != "" {
		x.Fail("valid-program-refused", "refused", "a program of the language is refused: %s\n%s", r[0].Panic, src)
		return
	}
	c.src = src
	return c, true
}

func runC02(x *X) {
	c := x.C
	np := 1 + c.W.Pick(3, 1)
	var prs []*program
	var refs []compiled
	for i := 0; i < np; i++ {
		p := genProgram(c, langCfg{stmts: 5, expo: true, split: true, div: true, large: 80, long: true})
		src := p.text()
		x.Work(src)
		ev := p.eval(p.drawInputs(c))
		if !ev.ok {
			x.Probe("interpreter-gave-up:" + ev.why)
			return
		}
		r, ok := refCompile(x, src)
		if !ok {
			return
		}
		if r.dense != r.sparse {
			x.Fail("dense-sparse", "dense-sparse", "dense and sparse constraint systems differ\n%s\ndense:\n%s\nsparse:\n%s", src, r.dense, r.sparse)
			return
		}
		prs = append(prs, p)
		refs = append(refs, r)
		if p.div {
			x.Probe("program-with-division")
		}
		if p.expo {
			x.Probe("program-with-point-multiplication")
		}
		if len(p.public) > 0 {
			x.Probe("program-with-public-inputs")
		}
	}
	x.Sample("%s", refs[0].src)
	ncl := 1 + c.W.N(4)
	type job struct{ p, kind int }
	jobs := make([][]job, ncl)
	for i := range jobs {
		for k := 1 + c.W.Pick(3, 1); k > 0; k-- {
			jobs[i] = append(jobs[i], job{c.W.N(np), 1 + c.W.N(3)})
		}
	}
	// input vectors
	type vec struct {
		p    int
		in   []*big.Int
		ev   evalResult
		bad  bool
		note string
	}
	var vecs []vec
	for k := 1 + c.W.N(3); k > 0; k-- {
		v := vec{p: c.W.N(np)}
		p := prs[v.p]
		v.ev = p.eval(p.drawInputs(c))
		if !v.ev.ok || v.ev.ambiguous {
			x.Probe("vector-left-out")
			continue
		}
		v.in = v.ev.inputs
		if c.W.Chance(1, 3) { // a wrong value for a result
			for i, n := range p.inputs {
				if p.hints[n] && c.W.Chance(2, 3) {
					v.in = cloneInts(v.in)
					v.in[i] = fAdd(v.in[i], drawNZ(c))
					v.ev = p.eval(v.in)
					break
				}
			}
			if !v.ev.ok || v.ev.ambiguous {
				continue
			}
		}
		vecs = append(vecs, v)
		x.Work(ints(v.in))
	}
	decided := false
	x.Sim(Opt{}, func() {
		fs := make([]func(), ncl)
		for i := range fs {
			i := i
			fs[i] = func() {
				for _, j := range jobs[i] {
					stall(1, 12)
					d := dumpArt(compileArt(refs[j.p].src, j.kind))
					if d.dense != "" && d.dense != refs[j.p].dense || d.sparse != "" && d.sparse != refs[j.p].sparse {
						x.Fail("compile-differs", "compile-differs", "compiled again, the same text gives another constraint system\n%s\nalone:\n%s\nnow:\n%s%s", refs[j.p].src, refs[j.p].dense, d.dense, d.sparse)
					}
				}
			}
		}
		fs = append(fs, func() {
			for _, v := range vecs {
				p := prs[v.p]
				a := compileArt(refs[v.p].src, 3)
				for s := 0; s < 2; s++ {
					w, err := a.witnessOf(s == 1, p.inputs, cloneInts(v.in))
					if simrt.Cur() == nil {
						return
					}
					judgeWitness(x, p, refs[v.p], v.in, v.ev, w, err, []string{"dense", "sparse"}[s])
					decided = true
				}
			}
		})
		for _, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("compile-panic", "compile-panic", "a client that compiles a valid program got a panic: %s\n%s", o.Panic, refs[0].src)
			}
		}
	})
	if decided && refs[0].sys.gates >= 2 {
		x.Nontrivial()
	}
}

// judgeWitness compares the answer of the circuit with the program text.
func judgeWitness(x *X, p *program, ref compiled, in []*big.Int, ev evalResult, w []*big.Int, err error, rep string) {
	ctx := func() string {
		return fmt.Sprintf("%s\ninputs %v = %s", ref.src, p.inputs, ints(in))
	}
	if ev.unsat {
		x.Probe("unsatisfiable-vector")
		if err == nil {
			x.Fail("wrong-accepted", "wrong-accepted", "the %s circuit accepts inputs the program text rejects\n%s", rep, ctx())
		}
		return
	}
	if err != nil {
		x.Fail("right-rejected", "right-rejected", "the %s circuit rejects inputs the program text accepts: %v\n%s", rep, err, ctx())
		return
	}
	if len(w) != ref.sys.width {
		x.Fail("witness-length", "witness-length", "%s witness has %d entries, the system has %d columns\n%s", rep, len(w), ref.sys.width, ctx())
		return
	}
	if k := ref.sys.unsatisfied(w); k >= 0 {
		x.Fail("witness-unsatisfied", "witness-unsatisfied", "the %s witness does not satisfy constraint %d\n%s", rep, k, ctx())
		return
	}
	head := len(p.inputs) + 1
	for i := head; i < len(w) && i < head+30; i++ {
		// every value after the inputs is determined by the program text
		v := cloneInts(w)
		v[i] = fAdd(v[i], bi(int64(1+i)))
		if ref.sys.unsatisfied(v) < 0 {
			x.Fail("undetermined-value", "undetermined-value", "the %s system holds for a wrong value of column %d as well\n%s", rep, i, ctx())
			return
		}
	}
	if ev.ret != nil && ref.sys.gates > 0 {
		found := ev.ret.Sign() == 0 || ev.ret.BitLen() < 40 || isStaticReturn(p)
		for _, v := range w {
			found = found || v.Cmp(ev.ret) == 0
		}
		if !found {
			// the result may be a multiple of a gate; only completed results are demanded
			x.Fail("result-missing", "result-missing", "the program returns %v, which is nowhere in the %s witness %s\n%s", ev.ret, rep, ints(w), ctx())
		}
	}
}

func isStaticReturn(p *program) bool {
	// results that do not depend on the inputs appear in no gate
	a := p.eval(fixedInputs(p, 3))
	b := p.eval(fixedInputs(p, 1000003))
	return !a.ok || !b.ok || a.ret == nil || b.ret == nil || a.ret.Cmp(b.ret) == 0
}

func fixedInputs(p *program, k int64) []*big.Int {
	l := make([]*big.Int, len(p.inputs))
	for i, n := range p.inputs {
		if !p.hints[n] {
			l[i] = bi(k + int64(i)*7)
		}
	}
	return l
}
