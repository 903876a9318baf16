package main

import (
	"fmt"
	"math/big"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C09", Quick: 36000, Thorough: 2000000,
		Rule:       "A run draws a program (with public inputs, divisions, point multiplications, bit splits now and then) and 2-6 input vectors: satisfying ones, ones with a wrong result, arbitrary ones, shuffled ones, and misfits (unknown, missing, contradicting, unreduced, negative or absent values, a wrong constant one). 1-4 clients compute dense and sparse witnesses from the same shared systems and the same shared vectors at the same time under a random schedule and map order, then the polynomial forms of correct and of corrupted witnesses. Every constraint is evaluated again with big integers; the polynomials are compared, coefficient by coefficient, with reference interpolation, so that they vanish exactly on the satisfied gates; systems, transposed systems and vectors must be unchanged. Systems with the randomising gate run with an entropy source that fails or delivers short reads. Non-trivial: a witness was accepted, another vector was refused and one polynomial was compared.",
		Real:       []string{"circuitcompiler: compiler, constraint systems, transposition, witness calculation", "utils: field, polynomials, ordered map", "zkSNARK: combination of polynomials", "pairing: scalar multiplication of the generator"},
		Stub:       []string{"goroutine scheduler, channels, map iteration order, entropy source (simulated)"},
		Assume:     []string{"values left out by the caller may be solved for where only one value fits", "polynomial forms are compared for programs of up to 40 gates"},
		FaultKinds: []string{"stalled-client", "entropy_error", "entropy_short_read"},
		Run:        runC09,
	})
}

type wvec struct {
	names []string
	vals  []*big.Int
	args  []cc.InputArgument
	kind  string
	want  int // 1 must be accepted, -1 must be refused, 0 either
	wits  []*big.Int
	done  bool
	fails bool
}

// interpBase caches the reference Lagrange bases.
var interpBase = map[[2]int]poly{}

func refInterp(data []*big.Int) poly {
	r := poly{}
	n := len(data)
	for k, v := range data {
		if v.Sign() == 0 {
			continue
		}
		b, ok := interpBase[[2]int{k, n}]
		if !ok {
			b = pInterp(poly{uint(k): bi(1)}, n)
			if len(interpBase) > 4000 {
				interpBase = map[[2]int]poly{}
			}
			interpBase[[2]int{k, n}] = b
		}
		for i, u := range b {
			r.add(i, fMul(u, v))
		}
	}
	return r
}

func (c *csys) dot(k, i int, w []*big.Int) *big.Int {
	s := new(big.Int)
	for j, v := range c.rows[k][i] {
		s.Add(s, new(big.Int).Mul(v, w[j]))
	}
	return red(s)
}

// refPx is the polynomial form of the constraint system under the assignment w.
func (c *csys) refPx(w []*big.Int) (px poly, bad []int) {
	n := len(c.rows[0])
	l, r, g, o := make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n), make([]*big.Int, n)
	for i := 0; i < n; i++ {
		l[i], r[i], o[i] = c.dot(0, i, w), c.dot(1, i, w), c.dot(3, i, w)
		g[i] = bi(0)
		if e := c.dot(2, i, w); e.Sign() != 0 {
			g[i] = red(refX(e))
		}
		if fSub(fAdd(fMul(l[i], r[i]), g[i]), o[i]).Sign() != 0 {
			bad = append(bad, i)
		}
	}
	if n <= 40 {
		px = pSub(pAdd(pMul(refInterp(l), refInterp(r)), refInterp(g)), refInterp(o))
	}
	return
}

func treePoly(t *utils.AvlTree) (p poly, bad string) {
	p = poly{}
	for ch := t.ChannelNodes(true); ; {
		n, ok := ch.Recv2()
		if !ok {
			break
		}
		if n.Value.Sign() <= 0 || n.Value.Cmp(refQ) >= 0 {
			bad = fmt.Sprintf("coefficient %v of x^%d is not canonical", n.Value, n.Key)
		}
		p.add(n.Key, n.Value)
	}
	return
}

func runC09(x *X) {
	c := x.C
	p := genProgram(c, langCfg{stmts: 4, expo: true, split: c.W.Chance(1, 4), div: true, small: c.W.Chance(1, 2), large: 60})
	src := p.text()
	x.Work(src)
	first := p.eval(p.drawInputs(c))
	if !first.ok {
		x.Probe("left-out: " + first.why)
		return
	}
	random := c.W.Chance(1, 6)
	var vecs []*wvec
	add := func(kind string, want int, names []string, vals []*big.Int) {
		vecs = append(vecs, &wvec{kind: kind, want: want, names: names, vals: vals})
	}
	names := func() []string { return append([]string{}, p.inputs...) }
	for k := 2 + c.W.N(5); k > 0; k-- {
		ev := p.eval(p.drawInputs(c))
		if !ev.ok {
			continue
		}
		sat := 0
		if !ev.ambiguous {
			sat = 1
			if ev.unsat {
				sat = -1
			}
		}
		in := cloneInts(ev.inputs)
		i := c.W.N(len(in))
		switch c.W.Pick(5, 4, 3, 2, 1, 2, 1, 2, 1, 1, 1, 1) {
		case 0:
			add("as the text says", sat, names(), in)
		case 1: // one value changed
			in[i] = fAdd(in[i], drawNZ(c))
			w := 0
			if e := p.eval(in); e.ok && !e.ambiguous {
				w = 1
				if e.unsat {
					w = -1
				}
			}
			add("one value changed", w, names(), in)
		case 2:
			for j := range in {
				in[j] = drawField(c)
			}
			w := 0
			if e := p.eval(in); e.ok && !e.ambiguous {
				w = 1
				if e.unsat {
					w = -1
				}
			}
			add("arbitrary", w, names(), in)
		case 3: // another order
			idx := permute(c.W, len(in))
			var ns []string
			var vs []*big.Int
			for _, j := range idx {
				ns = append(ns, p.inputs[j])
				vs = append(vs, in[j])
			}
			add("shuffled", sat, ns, vs)
		case 4:
			add("unknown input", -1, append(names(), []string{"nope", "", "i", "2", "1@randomOut2", " x"}[c.W.N(6)]), append(in, drawField(c)))
		case 5:
			ns := names()
			ns = append(ns[:i], ns[i+1:]...)
			// an input that may have several values is not determined
			w := 0
			if other := cloneInts(in); !p.hints[p.inputs[i]] && sat > 0 {
				other[i] = fAdd(in[i], drawNZ(c))
				if e := p.eval(other); e.ok && !e.ambiguous && !e.unsat {
					w = -1
				}
			}
			add("missing input", w, ns, append(in[:i], in[i+1:]...))
		case 6:
			in[i] = nil
			add("absent value", -1, names(), in)
		case 7:
			in[i] = new(big.Int).Add(in[i], new(big.Int).Mul(refQ, bi(int64(1+c.W.N(3)))))
			add("unreduced value", -1, names(), in)
		case 8:
			in[i] = new(big.Int).Sub(in[i], refQ)
			add("negative value", -1, names(), in)
		case 9:
			add("contradicting values", -1, append(names(), p.inputs[i]), append(in, fAdd(in[i], drawNZ(c))))
		case 10:
			v, w := bi(1), sat
			if c.W.Chance(2, 3) {
				v, w = drawField(c), -1
				if v.Cmp(bi(1)) == 0 {
					w = sat
				}
			}
			add("constant one given", w, append([]string{"1"}, names()...), append([]*big.Int{v}, in...))
		case 11:
			w, a, b := 0, p.eval(p.drawInputs(c)), p.eval(p.drawInputs(c))
			if !sameInts(a.inputs, b.inputs) && a.ok && b.ok && !a.unsat && !b.unsat && !a.ambiguous && !b.ambiguous {
				w = -1
			}
			add("nothing", w, nil, nil)
		}
		x.Work(ints(in))
	}
	if len(vecs) == 0 {
		return
	}
	x.Sample("%s\n%s %v = %s", src, vecs[0].kind, vecs[0].names, ints(vecs[0].vals))
	ncl := 1 + c.W.N(4)
	heavy := strings.Contains(src, "SPLIT") // 255 gates each
	type job struct {
		v, rep, pos int
		poly        bool
		delta       *big.Int
	}
	jobs := make([][]job, ncl)
	for i := range jobs {
		for k := 2 + c.W.N(4); k > 0; k-- {
			j := job{v: c.W.N(len(vecs)), rep: c.W.N(2), poly: c.W.Chance(1, 3), pos: -1}
			if c.W.Chance(1, 2) {
				j.pos, j.delta = c.W.N(1000), drawNZ(c)
			}
			jobs[i] = append(jobs[i], j)
		}
		if heavy {
			jobs[i] = jobs[i][:1+len(jobs[i])/4]
		}
	}
	if heavy {
		jobs = jobs[:1+len(jobs)/3]
	}
	accepted, refused, compared := false, false, false
	var a *art
	var sys *csys
	var before string
	x.Sim(Opt{Budget: 60000000}, func() {
		w := simrt.Cur()
		a = &art{prog: cc.Parse(src, true)}
		a.gates = a.prog.Execute()
		a.dense = a.prog.GatesToR1CS(a.gates, random)
		a.sparse = a.prog.GatesToSparseR1CS(a.gates, random)
		sys = csysDense(a.prog, a.dense)
		ss := csysSparse(a.prog, a.sparse)
		before = sys.String()
		if before != ss.String() {
			x.Fail("dense-sparse-system", "dense-sparse-system", "dense and sparse systems differ\n%s\n%s\n%s", src, before, ss.String())
			return
		}
		if sys.gates == 0 {
			x.Probe("program without gates")
		}
		var td *cc.ER1CSTransposed
		var ts *cc.ER1CSsPARSETransposed
		if sys.gates > 0 {
			td, ts = a.dense.Transpose(), a.sparse.TransposeSparse()
			judgeTransposed(x, sys, td, ts, src)
		}
		for _, v := range vecs {
			v.args = cc.CombineInputs(v.names, v.vals)
		}
		held := make([][]*big.Int, len(vecs))
		for i, v := range vecs {
			held[i] = cloneInts(v.vals)
		}
		if random && c.F.Chance(1, 2) {
			w.Entropy.FailAt = 1 + c.F.N(4*ncl*3)
		}
		if random && c.F.Chance(1, 2) {
			w.Entropy.Short = true
		}
		var fs []func()
		for i := range jobs {
			i := i
			fs = append(fs, func() {
				for _, j := range jobs[i] {
					stall(1, 10)
					v := vecs[j.v]
					var wit []*big.Int
					var err error
					txt, pan := TryS(func() {
						if j.rep == 1 {
							wit, err = cc.CalculateSparseWitness(a.sparse, v.args)
						} else {
							wit, err = cc.CalculateWitness(a.dense, v.args)
						}
					})
					rep := []string{"dense", "sparse"}[j.rep]
					at := func() string {
						return fmt.Sprintf("%s, %s %v = %s\n%s", rep, v.kind, v.names, ints(v.vals), src)
					}
					if pan {
						if random && w.Entropy.FailAt > 0 {
							continue
						}
						x.Fail("witness-panic", "witness-panic|"+v.kind, "computing a witness panicked instead of returning an error: %s\n%s", txt, at())
						return
					}
					if err != nil {
						refused = true
						if random && w.Entropy.FailAt > 0 {
							continue
						}
						if v.done {
							x.Fail("witness-differs", "witness-differs", "refused now (%v), but accepted before or in the other representation\n%s", err, at())
						}
						v.fails = true
						if v.want > 0 {
							x.Fail("right-rejected", "right-rejected", "inputs that satisfy the program are refused: %v\n%s", err, at())
						}
						if wit != nil {
							x.Fail("wrong-witness", "witness-with-error", "an error and a witness were returned\n%s", at())
						}
						continue
					}
					accepted = true
					if v.fails {
						x.Fail("witness-differs", "witness-differs", "accepted now, but refused before or in the other representation\n%s", at())
					}
					if v.want < 0 {
						x.Fail("wrong-accepted", "wrong-accepted|"+v.kind, "a witness was returned for inputs that do not satisfy or do not fit the program\n%s\n%s", at(), ints(wit))
					}
					if !judgeAssignment(x, p, sys, v, wit, at, random) {
						return
					}
					cmp := wit
					if random {
						cmp = wit[:len(wit)-2]
					}
					if v.done && !sameInts(cmp, v.wits) {
						x.Fail("witness-differs", "witness-differs", "the same inputs gave another witness\n%s\nbefore %s\nnow %s", at(), ints(v.wits), ints(cmp))
					}
					v.done, v.wits = true, cloneInts(cmp)
					if j.poly && sys.gates > 0 && sys.gates <= 40 {
						stall(1, 10)
						as := cloneInts(wit)
						if j.pos >= 0 {
							k := j.pos % len(as)
							as[k] = fAdd(as[k], j.delta)
						}
						judgePx(x, sys, td, ts, as, j.pos >= 0, j.rep == 1, at)
						compared = true
					}
				}
			})
		}
		for _, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("client-panic", "client-panic", "a client got a panic: %s\n%s", o.Panic, src)
			}
		}
		if x.Failed() {
			return
		}
		if s := csysDense(a.prog, a.dense).String(); s != before {
			x.Fail("system-changed", "system-changed", "the dense system was changed by computing witnesses\n%s\n%s\n%s", src, before, s)
		}
		if s := csysSparse(a.prog, a.sparse).String(); s != before {
			x.Fail("system-changed", "system-changed", "the sparse system was changed by computing witnesses\n%s\n%s\n%s", src, before, s)
		}
		for i, v := range vecs {
			if !sameInts(held[i], v.vals) {
				x.Fail("inputs-changed", "inputs-changed", "the input vector was changed\n%s\n%s -> %s", src, ints(held[i]), ints(v.vals))
			}
		}
		if sys.gates > 0 && sys.gates <= 40 {
			judgeTransposed(x, sys, td, ts, src)
			judgeEAP(x, sys, td, ts, src)
		}
	})
	if accepted && refused && compared {
		x.Nontrivial()
	}
}

// judgeAssignment checks a returned witness against the system and the given values.
func judgeAssignment(x *X, p *program, sys *csys, v *wvec, wit []*big.Int, at func() string, random bool) bool {
	if len(wit) != sys.width {
		x.Fail("witness-length", "witness-length", "the witness has %d entries, the system has %d columns\n%s", len(wit), sys.width, at())
		return false
	}
	for i, u := range wit {
		if u == nil || u.Sign() < 0 || u.Cmp(refQ) >= 0 {
			x.Fail("wrong-witness", "unreduced", "entry %d of the witness is %v\n%s", i, u, at())
			return false
		}
	}
	given := map[string]*big.Int{"1": bi(1)}
	for i, n := range v.names {
		given[n] = v.vals[i]
	}
	for i, n := range p.order1() {
		if g, ok := given[n]; ok && g != nil && wit[i].Cmp(g) != 0 {
			x.Fail("wrong-witness", "inputs-not-at-head", "entry %d of the witness should be %s = %v, but is %v\n%s", i, n, g, wit[i], at())
			return false
		}
	}
	if k := sys.unsatisfied(wit); k >= 0 {
		x.Fail("witness-unsatisfied", "witness-unsatisfied", "the witness does not satisfy constraint %d\n%s\n%s\n%s", k, at(), ints(wit), sys)
		return false
	}
	if random && wit[len(wit)-2].Sign() == 0 {
		x.Fail("wrong-witness", "randomiser-zero", "the random value is zero\n%s", at())
	}
	return true
}

func judgePx(x *X, sys *csys, td *cc.ER1CSTransposed, ts *cc.ER1CSsPARSETransposed, as []*big.Int, corrupt, sparse bool, at func() string) {
	held := cloneInts(as)
	var px poly
	if sparse {
		t := zkSNARK.CombineSparsePolynomials(as, ts)
		q, bad := treePoly(t)
		if bad != "" {
			x.Fail("px-not-canonical", "px-not-canonical", "%s\n%s", bad, at())
		}
		px = q
	} else {
		d := zkSNARK.CombinePolynomials2(as, td)
		for i, v := range d {
			if v.Sign() < 0 || v.Cmp(refQ) >= 0 {
				x.Fail("px-not-canonical", "px-not-canonical", "coefficient %v of x^%d is not canonical\n%s", v, i, at())
			}
		}
		px = pFromSlice(d)
	}
	if !sameInts(held, as) {
		x.Fail("inputs-changed", "witness-changed", "the witness was changed by combining the polynomials\n%s", at())
	}
	want, bad := sys.refPx(as)
	vanish := true
	isBad := map[int]bool{}
	for _, i := range bad {
		isBad[i] = true
	}
	for i := 0; i < sys.gates; i++ {
		z := pEval(px, bi(int64(i))).Sign() == 0
		vanish = vanish && z
		if z == isBad[i] {
			x.Fail("px-wrong", "px-vanishing", "the polynomial is zero at %d: %v, but constraint %d holds: %v\n%s\n%s\n%s", i, z, i, !isBad[i], at(), ints(as), sys)
			return
		}
	}
	if corrupt && !vanish {
		x.Probe("corrupted witness: polynomial does not vanish")
	} else if corrupt {
		x.Probe("corrupted witness: still satisfying")
	}
	if want != nil && !pEq(px, want) {
		x.Fail("px-wrong", "px-wrong", "the polynomial form differs\n%s\nassignment %s\nis     %v\nshould be %v\n%s", at(), ints(as), px, want, sys)
	}
}

func judgeTransposed(x *X, sys *csys, td *cc.ER1CSTransposed, ts *cc.ER1CSsPARSETransposed, src string) {
	if td.WitnessLength != sys.width || td.NumberOfGates != sys.gates || ts.WitnessLength != sys.width || ts.NumberOfGates != sys.gates {
		x.Fail("transposed-wrong", "transposed-size", "the transposed system has other sizes\n%s", src)
		return
	}
	dd := [][][]*big.Int{td.L, td.R, td.E, td.O}
	sd := [][]*utils.AvlTree{ts.L, ts.R, ts.E, ts.O}
	for k := range dd {
		if len(dd[k]) != sys.width || len(sd[k]) != sys.width {
			x.Fail("transposed-wrong", "transposed-size", "the transposed system has %d and %d columns, not %d\n%s", len(dd[k]), len(sd[k]), sys.width, src)
			return
		}
		for j := 0; j < sys.width; j++ {
			a, b := rowDense(dd[k][j]), rowSparse(sd[k][j])
			for i := 0; i < sys.gates; i++ {
				v := sys.rows[k][i][j]
				if (v == nil) != (a[i] == nil) || (v == nil) != (b[i] == nil) || v != nil && (v.Cmp(a[i]) != 0 || v.Cmp(b[i]) != 0) {
					x.Fail("transposed-wrong", "transposed-wrong", "entry %d,%d of %c is %v, transposed %v and %v\n%s", i, j, "LREO"[k], v, a[i], b[i], src)
					return
				}
			}
		}
	}
}

// judgeEAP checks the columns' polynomials on the evaluation domain.
func judgeEAP(x *X, sys *csys, td *cc.ER1CSTransposed, ts *cc.ER1CSsPARSETransposed, src string) {
	var d [4][][]*big.Int
	var s [4][]*utils.AvlTree
	d[0], d[1], d[2], d[3] = td.ER1CSToEAP()
	s[0], s[1], s[2], s[3] = ts.ER1CSToEAPSparse()
	for k := 0; k < 4; k++ {
		if len(d[k]) != sys.width || len(s[k]) != sys.width {
			x.Fail("eap-wrong", "eap-size", "the polynomial form has %d and %d columns, not %d\n%s", len(d[k]), len(s[k]), sys.width, src)
			return
		}
		for j := 0; j < sys.width; j++ {
			col := make([]*big.Int, sys.gates)
			for i := range col {
				col[i] = bi(0)
				if v := sys.rows[k][i][j]; v != nil {
					col[i] = v
				}
			}
			want := refInterp(col)
			sp, bad := treePoly(s[k][j])
			if bad != "" {
				x.Fail("px-not-canonical", "eap-not-canonical", "%s\n%s", bad, src)
			}
			if dp := pFromSlice(d[k][j]); !pEq(dp, want) || !pEq(sp, want) {
				x.Fail("eap-wrong", "eap-wrong", "column %d of %c has the polynomial %v (dense) %v (sparse), should be %v\n%s", j, "LREO"[k], dp, sp, want, src)
				return
			}
		}
	}
}
