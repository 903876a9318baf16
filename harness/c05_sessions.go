package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C05", Quick: 11000, Thorough: 800000,
		Rule:       "A run draws up to 3 programs with satisfying and bad inputs, curve points, polynomials and vectors, and 1-4 clients with up to 5 jobs each, taken from a small pool so that several clients use the same objects: compile a text (also spoilt ones), derive dense and sparse constraint systems from shared gates, compute witnesses from shared systems and shared input vectors (also impossible ones), transpose, interpolate columns, combine polynomials, dense and sparse polynomial arithmetic and interpolation of any length in the scalar field and in fields of other moduli, field arithmetic on shared numbers, group arithmetic on shared points, random elements with working and failing devices, walks over shared polynomials that are given up half way; in a part of the runs trusted setups, proofs and verifications with shared keys and proofs. First every distinct job is executed alone in a fresh simulated process, without preemption. Then all run in one process, at the same time and after each other, with stalls. Every job must give the bytes it gives alone (randomness comes from a stream per job); what it returned must still be the same at the end, after all others ran, and after clients overwrote the results that are theirs; all shared objects and constants must print the same before and after. Non-trivial: two clients used the same object at the same time and at least one job failed or was given up.",
		Real:       []string{"circuitcompiler, utils, pairing, zkSNARK: all of it"},
		Stub:       []string{"goroutine scheduler, channels, locks, map iteration order, random device (simulated)"},
		Assume:     []string{"executing one parsed program twice at the same time, and changing numbers in place that the library handed out, which by its convention are shared values (vectors, polynomials and constraint systems share their numbers, zero and one among them), are outside the contract"},
		FaultKinds: []string{"stalled-client", "entropy_error", "walk-given-up", "results-overwritten"},
		Run:        runC05,
	})
}

type c5job struct {
	kind, env, a, b int
	salt            int64
}

const (
	jCompile = iota
	jDerive
	jWitness
	jBadWitness
	jTranspose
	jEAP
	jPx
	jInterp
	jSparse
	jDense
	jField
	jGroup
	jRand
	jGiveUp
	jOther
	jExecute
	jPrint
	jSetup
	jProve
	jVerify
	jKinds
)

var c5names = []string{"compile", "derive", "witness", "bad witness", "transpose", "columns", "combine", "interpolate", "sparse arithmetic", "dense arithmetic", "field", "group", "random", "walk given up", "other field", "execute", "print", "setup", "prove", "verify"}

func (j c5job) String() string { return fmt.Sprintf("%s(%d,%d,%d)", c5names[j.kind], j.env, j.a, j.b) }

// what a job needs of the shared objects
const (
	nProg = 1 << iota
	nTrans
	nWit
	nPoly
	nPoints
	nKey
	nProof
)

var c5needs = []int{0, nProg, nProg, nProg, nProg, nProg | nTrans, nProg | nTrans | nWit, nPoly, nPoly, nPoly, nPoly, nPoints, 0, nPoly, nPoly, nProg, nProg | nPoly | nPoints, nProg | nTrans, nProg | nTrans | nWit | nKey, nProg | nTrans | nWit | nKey | nProof}

// c5plan is the run's data, plain numbers and texts only.
type c5plan struct {
	ps     []*program
	srcs   []string
	ins    [][][]*big.Int // satisfying inputs
	bad    []string       // spoilt texts
	points [4][]struct {
		k   *big.Int
		how int
	}
	polys   []poly
	vecs    [][]*big.Int
	nums    []*big.Int
	keySalt uint64
}

// c5env is the shared objects of one process.
type c5env struct {
	x      *X
	p      *c5plan
	z      []*zkprog
	raw    []*art // only executed, nothing derived yet
	in     [][][]*big.Int
	wit    [][]*big.Int
	px     [][]*big.Int
	pts    *utils.AvlTree
	pxs    []*utils.AvlTree
	trees  []*utils.AvlTree
	vecs   [][]*big.Int
	nums   []*big.Int
	pnts   [4][]*el
	keys   []*zkSNARK.Setup
	proofs []*zkSNARK.Proof
	exec   simrt.Mutex
	salts  map[int]uint64
	fails  map[int]bool
	failed string
}

func newC5env(x *X, p *c5plan) *c5env {
	e := &c5env{x: x, p: p, salts: map[int]uint64{}, fails: map[int]bool{}}
	w := simrt.Cur()
	w.Entropy.Fill = func(owner int, b []byte) bool {
		for i := range b {
			e.salts[owner] += 0x9e3779b97f4a7c15
			b[i] = byte(mix64(e.salts[owner]) >> 20)
		}
		return true
	}
	w.Entropy.FailOwner = func(owner int) bool { return e.fails[owner] }
	return e
}

func (e *c5env) build(need int) {
	p := e.p
	if need&nProg != 0 {
		for i, pr := range p.ps {
			e.z = append(e.z, compileZk(pr, p.srcs[i]))
			e.raw = append(e.raw, compileArt(p.srcs[i], 0))
			var l [][]*big.Int
			for _, in := range p.ins[i] {
				l = append(l, cloneInts(in))
			}
			e.in = append(e.in, l)
		}
	}
	if need&nWit != 0 {
		for i, z := range e.z {
			w, err := z.witness(i%2 == 0, e.in[i][0])
			if err != nil {
				e.failed = "no witness for satisfying inputs: " + err.Error()
				return
			}
			e.wit = append(e.wit, w)
			e.px = append(e.px, zkSNARK.CombinePolynomials2(w, z.td))
			e.pxs = append(e.pxs, zkSNARK.CombineSparsePolynomials(w, z.ts))
		}
	}
	if need&nPoly != 0 {
		for _, m := range p.polys {
			e.trees = append(e.trees, buildTree(m))
		}
		for _, v := range p.vecs {
			e.vecs = append(e.vecs, cloneInts(v))
		}
		e.nums = cloneInts(p.nums)
	}
	if need&nPoints != 0 {
		for g := 1; g <= 3; g++ {
			for _, t := range p.points[g] {
				e.pnts[g] = append(e.pnts[g], newEl(g, t.k, t.how))
			}
		}
	}
	if need&nKey != 0 {
		for i, z := range e.z {
			simrt.SetOwner(1000 + i)
			e.salts[1000+i] = e.p.keySalt + uint64(i)
			s, err := z.setup(i%2 == 0)
			simrt.SetOwner(0)
			if err != nil {
				e.failed = "setup failed: " + err.Error()
				return
			}
			e.keys = append(e.keys, s)
		}
	}
	if need&nProof != 0 {
		for i, z := range e.z {
			pr, err := z.prove(i%2 == 1, &e.keys[i].Pk, e.wit[i])
			if err != nil {
				e.failed = "proof failed: " + err.Error()
				return
			}
			e.proofs = append(e.proofs, pr)
		}
	}
}

// dump prints all shared objects.
func (e *c5env) dump() string {
	var b strings.Builder
	for i, z := range e.z {
		fmt.Fprintf(&b, "dense %d:\n%s\nsparse %d:\n%s\n", i, csysDense(z.a.prog, z.a.dense), i, csysSparse(z.a.prog, z.a.sparse))
		fmt.Fprintf(&b, "dense raw:\n%s", rawDense(z.a.dense))
		for k, g := range z.a.gates {
			fmt.Fprintf(&b, "gate %d %v\n", k, g)
		}
		for k, g := range e.raw[i].gates {
			fmt.Fprintf(&b, "gate %d %v\n", k, g)
		}
		fmt.Fprintf(&b, "transposed %d:\n%s%s", i, rawTransposed(z.td), rawTransposedSparse(z.ts))
		for k, in := range e.in[i] {
			fmt.Fprintf(&b, "inputs %d: %s\n", k, ints(in))
		}
		fmt.Fprintf(&b, "names %q public %q main %q\n", z.p.inputs, z.a.prog.PublicInputs, z.a.prog.GetMainCircuit().Inputs)
	}
	for i := range e.wit {
		fmt.Fprintf(&b, "witness %d: %s\npolynomial %d: %s sparse: %s\n", i, ints(e.wit[i]), i, ints(e.px[i]), entries(e.pxs[i].DecendingNodes()))
	}
	for i, t := range e.trees {
		fmt.Fprintf(&b, "tree %d: %s\n", i, entries(t.DecendingNodes()))
	}
	for i, v := range e.vecs {
		fmt.Fprintf(&b, "vector %d: %s\n", i, ints(v))
	}
	fmt.Fprintf(&b, "numbers: %s\n", ints(e.nums))
	for g := 1; g <= 3; g++ {
		for i, p := range e.pnts[g] {
			fmt.Fprintf(&b, "element %d of group %d: %s\n", i, g, elFp(p))
		}
	}
	for i, k := range e.keys {
		fmt.Fprintf(&b, "key %d: %s\ntoxic %s\n", i, pkDump(&k.Pk), ints([]*big.Int{k.Toxic.Kalpha, k.Toxic.Kbeta, k.Toxic.Kgamma, k.Toxic.Kdelta}))
	}
	for i, p := range e.proofs {
		fmt.Fprintf(&b, "proof %d: %s\n", i, proofFp(p))
	}
	return b.String()
}

func rawDense(r *cc.ER1CS) string {
	var b strings.Builder
	for _, m := range [][][]*big.Int{r.L, r.R, r.E, r.O} {
		for _, l := range m {
			fmt.Fprintf(&b, "%s\n", ints(l))
		}
	}
	return b.String()
}

func rawTrees(b *strings.Builder, ms ...[]*utils.AvlTree) {
	for _, m := range ms {
		for _, t := range m {
			fmt.Fprintf(b, "%s\n", entries(t.DecendingNodes()))
		}
	}
}

func rawTransposed(r *cc.ER1CSTransposed) string {
	var b strings.Builder
	for _, m := range [][][]*big.Int{r.L, r.R, r.E, r.O} {
		for _, l := range m {
			fmt.Fprintf(&b, "%s\n", ints(l))
		}
	}
	return b.String()
}

func rawTransposedSparse(r *cc.ER1CSsPARSETransposed) string {
	var b strings.Builder
	rawTrees(&b, r.L, r.R, r.E, r.O)
	return b.String()
}

func elFp(p *el) string {
	switch p.g {
	case 1:
		return fmt.Sprintf("%x", g1fp(p.e1))
	case 2:
		return fmt.Sprintf("%x", g2fp(p.e2))
	}
	return fmt.Sprintf("%x", new(bn256.GT).Add(p.et, bn256.OneGT()).Marshal())
}

// firstDiff finds the first line that differs.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			o := "(nothing)"
			if i < len(lb) {
				o = lb[i]
			}
			return fmt.Sprintf("%.600s\n-- against --\n%.600s", la[i], o)
		}
	}
	return "(more lines)"
}

// c5res is a job's result: what it printed when it ended, and how to print it again.
type c5res struct {
	txt   string
	again func() string // nil: nothing is kept, or the client overwrote it
}

// run executes one job; owner identifies its stream of randomness.
func (e *c5env) run(j c5job, owner int) (res c5res) {
	simrt.SetOwner(owner)
	e.salts[owner] = uint64(j.salt)
	if txt, pan := TryS(func() { res.again = e.job(j, owner); res.txt = res.again() }); pan {
		e.x.Note("%v panics: %s", j, txt)
		res = c5res{txt: "panic"}
	}
	simrt.SetOwner(0)
	return
}

func (e *c5env) job(j c5job, owner int) func() string {
	w := simrt.Cur()
	at := func(n, i int) int { return i % n }
	F, PF := utils.Field.ArithmeticField, utils.Field.PolynomialField
	text := func(f string, a ...interface{}) func() string {
		s := fmt.Sprintf(f, a...)
		return func() string { return s }
	}
	// in a part of the jobs the client puts other numbers into what it was handed
	spoil := j.salt%3 == 0
	spoilTree := func(ts []*utils.AvlTree) {
		for _, t := range ts {
			if t == nil {
				continue
			}
			for k := uint(0); k < 3; k++ {
				t.Insert(k, bi(5))
			}
			t.Remove(t.MaxPower())
		}
	}
	spoilVec := func(vs [][]*big.Int) {
		for _, v := range vs {
			for i := range v {
				v[i] = bi(77)
			}
		}
	}
	mine := func(f func() string, over func()) func() string {
		if !spoil {
			return f
		}
		s := f()
		w.Fault("results-overwritten")
		over()
		return text("%s", s)
	}
	tree := func(ts ...*utils.AvlTree) func() string {
		return mine(func() string {
			var b strings.Builder
			rawTrees(&b, ts)
			return b.String()
		}, func() { spoilTree(ts) })
	}
	vec := func(vs ...[]*big.Int) func() string {
		return mine(func() string {
			s := ""
			for _, v := range vs {
				s += ints(v) + "\n"
			}
			return s
		}, func() { spoilVec(vs) })
	}
	els := func(f func() *el) func() string {
		p := f()
		return func() string { return elFp(p) }
	}
	switch j.kind {
	case jCompile:
		src := e.p.srcs[at(len(e.p.srcs), j.env)]
		if j.b%4 == 3 && len(e.p.bad) > 0 {
			src = e.p.bad[at(len(e.p.bad), j.a)]
		}
		var a *art
		if _, p := TryS(func() { a = compileArt(src, 1+j.a%3) }); p {
			return text("refused")
		}
		return func() string { d := dumpArt(a); return d.dense + d.sparse }
	case jDerive:
		z := e.raw[j.env]
		switch j.a % 3 {
		case 0:
			r := z.prog.GatesToR1CS(z.gates, j.b%3 == 2)
			return mine(func() string { return rawDense(r) }, func() { spoilVec(r.L); spoilVec(r.R); spoilVec(r.E); spoilVec(r.O) })
		case 1:
			r := z.prog.GatesToSparseR1CS(z.gates, j.b%3 == 2)
			return mine(func() string {
				var b strings.Builder
				rawTrees(&b, r.L, r.R, r.E, r.O)
				return b.String()
			}, func() { spoilTree(r.L); spoilTree(r.R); spoilTree(r.E); spoilTree(r.O) })
		}
		r, s := z.prog.GatesToR1CS(z.gates, false), z.prog.GatesToSparseR1CS(z.gates, false)
		return func() string { return csysDense(z.prog, r).String() + csysSparse(z.prog, s).String() }
	case jExecute:
		z := e.z[j.env]
		e.exec.Lock()
		defer e.exec.Unlock()
		g := z.a.prog.Execute()
		r := z.a.prog.GatesToR1CS(g, false)
		return func() string { return csysDense(z.a.prog, r).String() }
	case jWitness, jBadWitness:
		z, in := e.z[j.env], e.in[j.env][at(len(e.in[j.env]), j.a)]
		names := z.p.inputs
		if j.kind == jBadWitness {
			in = append([]*big.Int(nil), in...)
			k := j.a % len(in)
			switch j.b % 4 {
			case 0:
				in[k] = fAdd(in[k], bi(1))
			case 1:
				names = append([]string(nil), names...)
				names[k] = "nosuchinput"
			case 2:
				names, in = append([]string(nil), names[:k]...), in[:k]
			case 3:
				in[k] = nil
			}
		}
		wit, err := z.a.witnessOf(j.b%2 == 0, names, in)
		if err != nil {
			return text("refused %v", wit == nil)
		}
		return vec(wit)
	case jTranspose:
		z := e.z[j.env]
		if j.a%2 == 0 {
			r := z.a.dense.Transpose()
			return mine(func() string { return rawTransposed(r) }, func() { spoilVec(r.L); spoilVec(r.R); spoilVec(r.E); spoilVec(r.O) })
		}
		r := z.a.sparse.TransposeSparse()
		return mine(func() string { return rawTransposedSparse(r) }, func() { spoilTree(r.L); spoilTree(r.R); spoilTree(r.E); spoilTree(r.O) })
	case jEAP:
		z := e.z[j.env]
		if j.a%2 == 0 {
			l, r, ee, o := z.td.ER1CSToEAP()
			return vec(append(append(append(append([][]*big.Int(nil), l...), r...), ee...), o...)...)
		}
		l, r, ee, o := z.ts.ER1CSToEAPSparse()
		return tree(append(append(append(append([]*utils.AvlTree(nil), l...), r...), ee...), o...)...)
	case jPx:
		z, wit := e.z[j.env], e.wit[j.env]
		if j.a%2 == 0 {
			return vec(zkSNARK.CombinePolynomials2(wit, z.td))
		}
		return tree(zkSNARK.CombineSparsePolynomials(wit, z.ts))
	case jInterp:
		v := e.vecs[at(len(e.vecs), j.a)]
		if j.b%2 == 0 {
			r := PF.LagrangeInterpolation(v)
			return vec(r)
		}
		r := F.InterpolateSparseArray(utils.NewSparseArrayFromArray(v), len(v)+j.salt5())
		return tree(r)
	case jSparse:
		a, b := e.trees[at(len(e.trees), j.a)], e.trees[at(len(e.trees), j.b)]
		n := e.nums[at(3, j.env+j.a)]
		switch (j.a + j.b + int(j.salt%11)) % 9 {
		case 0:
			return tree(F.MulSparse(a, b))
		case 1:
			q, r := F.DivideSparse(a, b)
			return tree(q, r)
		case 2:
			return text("%v", F.EvalSparsePoly(a, n))
		case 3:
			return tree(F.AddToSparse(a.Clone(), b))
		case 4:
			return tree(F.SubToSparse(a.Clone(), b))
		case 5:
			return tree(F.MulSparseScalar(a, n))
		case 6:
			return text("%v %v", F.SparseScalarProduct(utils.NewSparseArrayFromArray(e.vecs[0]), e.vecs[0]), a.String())
		case 7:
			r := F.LinearCombine(e.trees[:2], e.nums[:2])
			return tree(r...)
		}
		if a.Size() == 0 {
			return text("empty")
		}
		return vec(a.ToArray(int(a.MaxPower()) + 1))
	case jDense:
		a, b := e.vecs[at(len(e.vecs), j.a)], e.vecs[at(len(e.vecs), j.b)]
		n := e.nums[at(3, j.env+j.a)]
		switch (j.a + j.b + int(j.salt%11)) % 7 {
		case 0:
			return vec(PF.Mul(a, b))
		case 1:
			q, r := PF.Div(a, b)
			if len(a) < len(b) {
				r = cloneInts(r) // the dividend itself
			}
			return vec(q, r)
		case 2:
			return text("%v", F.EvalPoly(a, n))
		case 3:
			return vec(PF.Add(a, b))
		case 4:
			return vec(PF.Sub(a, b))
		case 5:
			return vec(PF.MulScalar(a, n))
		}
		if len(a) > len(b) {
			a = a[:len(b)]
		} else {
			b = b[:len(a)]
		}
		return text("%v", F.ScalarProduct(a, b))
	case jField:
		a, b := e.nums[at(len(e.nums), j.a)], e.nums[at(len(e.nums), j.b)]
		l := []*big.Int{F.Add(a, b), F.Sub(a, b), F.Mul(a, b), F.Neg(a), F.Square(b), F.Double(a), F.Copy(a), F.Affine(a), F.Zero(), F.One()}
		if b = e.nums[at(3, j.b)]; b.Sign() != 0 {
			l = append(l, F.Exp(a, b), F.Inverse(b), F.Div(a, b))
		}
		return vec(l)
	case jOther:
		f := utils.PrepareFields(big.NewInt([]int64{7919, 104729, 1000003}[j.a%3]))
		small := func(v []*big.Int) (l []*big.Int) {
			for _, n := range v {
				l = append(l, new(big.Int).Mod(n, f.ArithmeticField.Q))
			}
			return
		}
		v := small(e.vecs[at(len(e.vecs), j.b)])
		if j.salt%2 == 0 {
			return vec(f.PolynomialField.LagrangeInterpolation(v), f.PolynomialField.DomainPolynomial(len(v)))
		}
		return tree(f.ArithmeticField.InterpolateSparseArray(utils.NewSparseArrayFromArray(v), len(v)+1))
	case jGroup:
		g := 1 + j.env%3
		l := e.pnts[g]
		a, b := l[at(len(l), j.a)], l[at(len(l), j.b)]
		k := big.NewInt(j.salt % 1000)
		return els(func() *el {
			r := &el{g: g, e1: new(bn256.G1), e2: new(bn256.G2), et: new(bn256.GT)}
			switch op := int(j.salt/1000) % 8; {
			case op < 2 && g == 1:
				r.e1.Add(a.e1, b.e1)
			case op < 2 && g == 2:
				r.e2.Add(a.e2, b.e2)
			case op < 2:
				r.et.Add(a.et, b.et)
			case op == 2 && g == 1:
				r.e1.ScalarMult(a.e1, k)
			case op == 2 && g == 2:
				r.e2.ScalarMult(a.e2, k)
			case op == 2:
				r.et.ScalarMult(a.et, k)
			case op == 3 && g == 1:
				r.e1.Neg(a.e1)
			case op == 3 && g == 3:
				r.et.Neg(a.et)
			case op < 6 && g == 1:
				r.e1.Unmarshal(a.e1.Marshal())
			case op < 6 && g == 2:
				if l[0].e2 != a.e2 {
					r.e2.Add(a.e2, l[0].e2)
				} else {
					r.e2.ScalarBaseMult(bi(3))
				}
				_ = a.e2.Marshal()
			case op < 6:
				r.et.Unmarshal(a.et.Marshal())
			case op == 6:
				r.g = 3
				r.et = bn256.Pair(e.pnts[1][at(len(e.pnts[1]), j.a)].e1, e.pnts[2][at(len(e.pnts[2]), j.b)].e2)
			default:
				s := ""
				switch g {
				case 1:
					s = a.e1.String() + a.e1.X().String()
				case 2:
					s = a.e2.String()
				case 3:
					s = a.et.String()
				}
				r.g = 1
				r.e1.ScalarBaseMult(new(big.Int).SetUint64(hash64(s)))
			}
			return r
		})
	case jRand:
		e.fails[owner] = j.a%3 == 2
		defer func() { delete(e.fails, owner) }()
		if j.b%3 < 2 {
			v, err := F.Rand()
			u, err2 := F.Rand()
			return text("%v %v %v %v", v, err != nil, u, err2 != nil)
		}
		k, p, err := bn256.RandomG1(simrt.RandReader)
		if err != nil {
			return text("refused %v %v", k == nil, p == nil)
		}
		return func() string { return fmt.Sprintf("%v %x", k, g1fp(p)) }
	case jGiveUp:
		// the consumer stops reading and never comes back
		t := e.trees[at(len(e.trees), j.a)]
		ch := t.ChannelNodes(j.b%2 == 0)
		s := ""
		for k := j.b % 4; k > 0; k-- {
			n, ok := ch.Recv2()
			if !ok {
				break
			}
			s += fmt.Sprintf("%d:%v ", n.Key, n.Value)
		}
		w.Fault("walk-given-up")
		return text("%s", s)
	case jPrint:
		z := e.z[j.env]
		var b bytes.Buffer
		switch j.a % 3 {
		case 0:
			for _, g := range e.raw[j.env].gates {
				fmt.Fprintf(&b, "%v\n", g)
			}
			fmt.Fprintf(&b, "%d", z.pub)
		case 1:
			fmt.Fprintf(&b, "%v %d", e.trees[at(len(e.trees), j.b)], e.trees[at(len(e.trees), j.b)].Size())
		case 2:
			fmt.Fprintf(&b, "%v", cc.CombineInputs(z.p.inputs, e.in[j.env][0]))
		}
		return text("%s", b.String())
	case jSetup:
		e.fails[owner] = j.a%4 == 3
		defer func() { delete(e.fails, owner) }()
		s, err := e.z[j.env].setup(j.b%2 == 0)
		if err != nil {
			return text("refused %v", s == nil)
		}
		return func() string {
			return pkDump(&s.Pk) + ints([]*big.Int{s.Toxic.Kalpha, s.Toxic.Kbeta, s.Toxic.Kgamma, s.Toxic.Kdelta})
		}
	case jProve:
		z, wit := e.z[j.env], e.wit[j.env]
		if j.a%4 == 3 {
			wit = append([]*big.Int(nil), wit...)
			wit[len(wit)-1] = fAdd(wit[len(wit)-1], bi(1))
		}
		pk := &e.keys[j.env].Pk
		var p *zkSNARK.Proof
		var err error
		switch {
		case j.b%4 == 0:
			p, err = zkSNARK.GenerateProofs(z.pub, pk, wit, e.px[j.env])
		case j.b%4 == 1:
			p, err = zkSNARK.GenerateProof_Sparse(z.pub, pk, wit, e.pxs[j.env])
		default:
			p, err = z.prove(j.b%4 == 2, pk, wit)
		}
		if err != nil {
			return text("refused")
		}
		return func() string { return proofFp(p) }
	case jVerify:
		z, pr := e.z[j.env], e.proofs[j.env]
		pub := e.wit[j.env][:z.pub]
		switch j.a % 4 {
		case 2:
			pub = cloneInts(pub)
			pub[len(pub)-1] = fAdd(pub[len(pub)-1], bi(1))
		case 3:
			q := *pr
			q.PiA = q.PiC
			pr = &q
		}
		return text("%v", zkSNARK.VerifyProof(&e.keys[j.env].Pk, pr, pub, j.b%2 == 0))
	}
	panic("job")
}

func (j c5job) salt5() int { return int(j.salt/7) % 3 }

func runC05(x *X) {
	c := x.C
	heavy := c.W.Chance(1, 10)
	p := &c5plan{keySalt: uint64(c.W.Salt())}
	np := 1 + c.W.Pick(2, 2, 1)
	max := 12
	cfg := langCfg{stmts: 3, expo: c.W.Chance(1, 6), div: true, split: c.W.Chance(1, 4), small: c.W.Chance(1, 2)}
	if heavy {
		np, max, cfg.stmts, cfg.split = 1, 4, 1, false
	}
	for i := 0; i < np; i++ {
		pr, src := drawZk(x, max, cfg)
		if x.Failed() {
			return
		}
		if pr == nil {
			continue
		}
		var ins [][]*big.Int
		for try := 0; try < 4 && len(ins) < 2; try++ {
			if ev := pr.eval(pr.drawInputs(c)); ev.ok && !ev.unsat && !ev.ambiguous {
				ins = append(ins, cloneInts(ev.inputs))
			}
		}
		if len(ins) == 0 || len(ins[0]) == 0 {
			continue
		}
		p.ps, p.srcs, p.ins = append(p.ps, pr), append(p.srcs, src), append(p.ins, ins)
		if c.W.Chance(1, 2) {
			// a spoilt loop may be one that never ends, which is a program
			if t := mutateText(c, src); !strings.Contains(t, "for") && !vastArray(t) {
				p.bad = append(p.bad, t)
			}
		}
	}
	if len(p.ps) == 0 {
		x.Probe("left-out: no program")
		return
	}
	for i := 0; i < 3; i++ {
		p.polys = append(p.polys, drawPoly(c, 6))
		var v []*big.Int
		for k := 1 + c.W.N(7); k > 0; k-- {
			v = append(v, drawField(c))
		}
		if n := len(v); n > 0 && c.W.Chance(1, 3) {
			// a place of a base vector, as the columns of most constraint systems are
			for k := range v {
				v[k] = bi(0)
			}
			if c.W.Chance(5, 6) {
				v[c.W.N(n)] = bi([]int64{1, 1, 1, 2, 0}[c.W.N(5)])
			}
		}
		p.vecs = append(p.vecs, v)
		p.nums = append(p.nums, drawField(c))
		for g := 1; g <= 3; g++ {
			p.points[g] = append(p.points[g], struct {
				k   *big.Int
				how int
			}{drawScalar(c), c.W.N(20)})
		}
	}
	// numbers that are not reduced
	for i := 0; i < 3; i++ {
		n := fSub(p.nums[i], bi(0))
		if c.W.Chance(1, 2) {
			n.Add(n, refQ)
		} else {
			n.Sub(n, refQ)
		}
		p.nums = append(p.nums, n)
		if c.W.Chance(1, 4) {
			p.vecs[i][0] = n
		}
	}
	// a small pool, so that clients meet
	var pool []c5job
	for k := 2 + c.W.N(6); k > 0; k-- {
		j := c5job{kind: c.W.Pick(3, 3, 3, 2, 1, 1, 2, 4, 3, 3, 1, 2, 2, 1, 2, 1, 1), env: c.W.N(len(p.ps)), a: c.W.N(12), b: c.W.N(12), salt: int64(c.W.N(1 << 20))}
		if heavy && c.W.Chance(1, 2) {
			j.kind = jSetup + c.W.Pick(1, 3, 4)
		}
		if j.kind == jGroup {
			j.env = c.W.N(3)
		}
		pool = append(pool, j)
	}
	if c.W.Chance(2, 3) {
		// one that fails or is given up
		j := c5job{kind: []int{jBadWitness, jGiveUp, jCompile, jRand}[c.W.Pick(3, 3, 2, 1)], env: c.W.N(len(p.ps)), a: 2 + 3*c.W.N(3), b: 3 + 4*c.W.N(3), salt: int64(c.W.N(1 << 20))}
		pool = append(pool, j)
	}
	ncl := 1 + c.W.Pick(1, 4, 3, 2)
	jobs := make([][]int, ncl)
	used := map[int]bool{}
	for i := range jobs {
		for k := 1 + c.W.N(4); k > 0; k-- {
			n := c.W.N(len(pool))
			jobs[i] = append(jobs[i], n)
			used[n] = true
		}
	}
	if k := len(pool) - 1; !used[k] {
		jobs[0][c.W.N(len(jobs[0]))] = k
	}
	for i := range jobs {
		for _, n := range jobs[i] {
			used[n] = true
		}
	}
	last := c.W.N(len(pool))
	used[last] = true
	x.Work(fmt.Sprint(p.srcs, p.bad, pool, jobs, p.vecs == nil))
	for _, v := range p.vecs {
		x.Work(ints(v))
	}
	x.Sample("%sjobs %v, clients %v", p.srcs[0], pool, jobs)
	// every job alone in a fresh process
	alone := make([]c5res, len(pool))
	for i, j := range pool {
		if !used[i] {
			continue
		}
		i, j := i, j
		x.Sim(Opt{NoPreempt: true, Budget: 2000000000, LeakOK: j.kind == jGiveUp}, func() {
			Join(func() {
				e := newC5env(x, p)
				if txt, bad := TryS(func() { e.build(c5needs[j.kind]) }); bad || e.failed != "" {
					x.Fail("unusable", "unusable", "preparing the job %v failed in a fresh process: %s%s\n%v", j, txt, e.failed, p.srcs)
					return
				}
				alone[i] = e.run(j, 1+i)
				alone[i].again = nil
			})
		})
		if x.Failed() {
			return
		}
		x.Obs(alone[i].txt)
		how := "done"
		if strings.HasPrefix(alone[i].txt, "panic") || strings.HasPrefix(alone[i].txt, "refused") {
			how = "failed"
		}
		x.Probe(c5names[j.kind] + ": " + how)
	}
	need, gaveUp := 0, false
	for i := range pool {
		if used[i] {
			need |= c5needs[pool[i].kind]
			gaveUp = gaveUp || pool[i].kind == jGiveUp
		}
	}
	busy := map[int]int{}
	shared, failed := false, false
	x.Sim(Opt{LeakOK: gaveUp, Budget: 2000000000, Busy: heavy}, func() {
		e := newC5env(x, p)
		if txt, bad := TryS(func() { e.build(need) }); bad || e.failed != "" {
			x.Fail("unusable", "unusable", "preparing the shared objects failed: %s%s\n%v", txt, e.failed, p.srcs)
			return
		}
		before := e.dump()
		type kept struct {
			n int
			r c5res
		}
		var all []kept
		one := func(n, owner int) {
			j := pool[n]
			for o, k := range busy {
				if k > 0 && (pool[o].env == j.env || o == n) && c5needs[pool[o].kind]&c5needs[j.kind] != 0 {
					shared = true
				}
			}
			busy[n]++
			r := e.run(j, owner)
			busy[n]--
			if strings.HasPrefix(r.txt, "panic") || strings.HasPrefix(r.txt, "refused") || j.kind == jGiveUp {
				failed = true
			}
			if r.txt != alone[n].txt {
				x.Fail("session-differs", "session-differs|"+c5names[j.kind], "the job %v gives another result than alone in a fresh process\n%s\n%s", j, firstDiff(r.txt, alone[n].txt), p.srcs[at0(len(p.srcs), j.env)])
			}
			all = append(all, kept{n, r})
		}
		var fs []func()
		for i := range jobs {
			i := i
			fs = append(fs, func() {
				for k, n := range jobs[i] {
					if x.Failed() {
						return
					}
					stall(1, 12)
					one(n, 1+len(pool)+i*10+k)
				}
			})
		}
		for _, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("client-panic", "client-panic", "a client got a panic: %s", o.Panic)
			}
		}
		if x.Failed() {
			return
		}
		one(last, 900)
		for _, k := range all {
			if k.r.again == nil || x.Failed() {
				continue
			}
			if s := k.r.again(); s != k.r.txt {
				x.Fail("result-changed", "result-changed|"+c5names[pool[k.n].kind], "what the job %v returned has changed since\n%s\n%s", pool[k.n], firstDiff(s, k.r.txt), p.srcs[0])
			}
		}
		if after := e.dump(); after != before {
			x.Fail("shared-changed", "shared-changed", "a shared object was changed\n%s\njobs %v\n%s", firstDiff(after, before), pool, p.srcs[0])
		}
		checkConstants(x)
	})
	if shared && failed {
		x.Nontrivial()
	}
}

func at0(n, i int) int { return i % n }
