package main

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

type polyOp struct {
	kind    int
	a, b    int
	key     uint
	val     *big.Int
	vec     []*big.Int
	n       int
	ascends bool
	scale   int
	perm    []uint
}

const (
	opPutAdd = iota
	opPutMul
	opInsert
	opInsertNew
	opRemove
	opGet
	opWalk
	opDescend
	opToArray
	opClone
	opAdd
	opSub
	opMul
	opScale
	opDiv
	opEval
	opInterp
	opScalarProduct
	opCombine
	opLinear
	opTranspose
	opFromArray
	opDense
	opNew
	opBulk
	opInterpVec
	opKinds
)

var polyOpNames = []string{"put-add", "put-mul", "insert", "insert-new", "remove", "get", "walk", "descend", "to-array", "clone", "add", "sub", "mul", "scale", "div", "eval", "interpolate", "scalar-product", "combine", "linear-combination", "transpose", "from-array", "dense", "new", "bulk", "interpolate-vector"}

// polyVal is a tree together with what it must contain.
type polyVal struct {
	t      *utils.AvlTree
	m      poly
	shared bool
}

func drawKey(c *simrt.Choices, big bool) uint {
	if big {
		switch c.W.Pick(6, 2, 1) {
		case 1:
			return uint(c.W.N(1 << 12))
		case 2:
			return uint(c.W.Salt()) << uint(c.W.N(8))
		}
	}
	return uint(c.W.N(14))
}

func drawPolyOp(c *simrt.Choices, wide int) polyOp {
	o := polyOp{kind: c.W.Pick(6, 2, 5, 2, 6, 2, 3, 1, 1, 2, 3, 3, 3, 3, 3, 3, 2, 2, 2, 1, 1, 1, 5, 1, wide/8, 1), scale: 1}
	o.a, o.b = c.W.N(8), c.W.N(8)
	o.key = drawKey(c, c.W.Chance(1, 4))
	if wide > 0 && c.W.Chance(2, 3) {
		o.key = uint(c.W.N(wide))
	}
	o.val = drawField(c)
	o.n = c.W.N(10)
	o.ascends = c.W.Chance(1, 2)
	switch o.kind {
	case opScale, opEval:
		o.val = drawWild(c)
	case opScalarProduct, opCombine, opLinear, opFromArray, opDense, opTranspose, opInterpVec:
		n := 15
		if o.kind == opDense && c.W.Chance(1, 16) {
			o.scale = 2 + c.W.N(8)
			n *= o.scale
		}
		if o.kind == opInterpVec && c.W.Chance(1, 24) { // over many points
			o.n = 10 + c.W.N(35)
			n = o.n + 1
		}
		for i := 0; i < n; i++ {
			o.vec = append(o.vec, drawField(c))
		}
	case opBulk:
		o.n = 1 + c.W.N(wide)
		for i := 0; i < 3; i++ {
			o.vec = append(o.vec, drawNZ(c))
		}
		for _, k := range permute(c.W, o.n) {
			o.perm = append(o.perm, uint(k)+o.key%8)
		}
	}
	return o
}

func (o polyOp) String() string {
	return fmt.Sprintf("%s a=%d b=%d key=%d val=%v n=%d %v", polyOpNames[o.kind], o.a, o.b, o.key, o.val, o.n, o.perm)
}

func init() {
	register(&Prop{
		ID: "C04", Quick: 130000, Thorough: 3000000,
		Rule:       "A run draws up to 3 clients, each with a history of up to 40 operations (tree insert/overwrite/remove/walk, polynomial add/sub/scale/mul/div/eval/interpolate/combine, dense counterparts, field scalar operations) on its own trees and on read-only trees shared by all clients, under a random schedule; interpolation over up to 45 points, crowds of clients that only interpolate over few lengths; keys up to 2^38, coefficients zero, small, minus small and random, scalars also negative and unreduced. Non-trivial: at least one history of 5 or more operations with a polynomial operation on a tree that went through a removal.",
		Real:       []string{"utils AvlTree, Fq sparse and scalar arithmetic, PolynomialField dense arithmetic, interpolation caches, walker goroutines"},
		Stub:       []string{"goroutine scheduler, channels, locks (simulated)"},
		Assume:     []string{"the reference polynomial arithmetic in harness/ref.go", "a tree that is being written is not read by another task at the same time (the library does not promise that)", "division by the zero polynomial and interpolation over fewer points than the highest key are outside the contract"},
		FaultKinds: []string{"stalled-client"},
		Run:        runC04,
	})
}

func runC04(x *X) {
	c := x.C
	nc := 1 + c.W.Pick(3, 2, 1)
	hist := make([][]polyOp, nc)
	deep := c.W.Chance(1, 10)
	wide := 0 // larger trees
	if c.W.Chance(1, 8) {
		wide = 16 + c.W.N(48)
		if c.W.Chance(1, 8) {
			wide = 300
		}
	}
	// several clients that do nothing but interpolate over few lengths: one asks
	// for what is known while another one stores what was not
	crowd := c.W.Chance(1, 25)
	if crowd {
		hist = make([][]polyOp, 2+c.W.N(2))
		nc = len(hist)
	}
	for i := range hist {
		if crowd {
			first := c.W.N(3)
			for k := 2 + c.W.N(6); k > 0; k-- {
				o := polyOp{kind: opInterpVec, n: 1 + first + c.W.N(3), ascends: c.W.Chance(1, 2), val: bi(0)}
				for len(o.vec) <= o.n {
					o.vec = append(o.vec, drawField(c))
				}
				hist[i] = append(hist[i], o)
			}
			continue
		}
		n := 1 + c.W.N(40)
		if deep {
			n *= 3
		}
		for k := 0; k < n; k++ {
			hist[i] = append(hist[i], drawPolyOp(c, wide))
		}
	}
	shared := make([]poly, c.W.N(3))
	for i := range shared {
		shared[i] = drawPoly(c, 8)
	}
	var desc strings.Builder
	for i := range hist {
		fmt.Fprintf(&desc, "client %d: %v; ", i, hist[i])
	}
	x.Work(desc.String() + fmt.Sprint(shared))
	x.Sample("%d clients, shared %v, %.1500s", nc, shared, desc.String())
	x.Sim(Opt{}, func() {
		var sh []*polyVal
		for _, m := range shared {
			sh = append(sh, &polyVal{t: buildTree(m), m: m, shared: true})
		}
		fs := make([]func(), nc)
		for i := range fs {
			i := i
			fs[i] = func() { polyClient(x, sh, hist[i]) }
		}
		for i, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("panic", o.Panic, "client %d: %s", i, o.Panic)
			}
		}
		for i, s := range sh {
			checkTree(x, s, fmt.Sprintf("the shared polynomial %d after the run", i))
		}
	})
}

func drawPoly(c *simrt.Choices, max int) poly {
	m := poly{}
	n := c.W.N(max + 1)
	for i := 0; i < n; i++ {
		m[drawKey(c, false)] = drawNZ(c)
	}
	return m
}

func buildTree(m poly) *utils.AvlTree {
	t := utils.NewAvlTree()
	for _, k := range m.keys() {
		t.Insert(k, cp(m[k]))
	}
	return t
}

// checkTree compares the tree with its model: content, order, canonical values.
func checkTree(x *X, v *polyVal, what string) bool {
	got := v.t.DecendingNodes()
	want := v.m.keys()
	for i := range want {
		k := want[len(want)-1-i]
		if i >= len(got) || got[i].Key != k || got[i].Value == nil || got[i].Value.Cmp(v.m[k]) != 0 {
			x.Fail("wrong-result", "tree", "%s: holds %s, must hold %v", what, entries(got), v.m)
			return false
		}
	}
	if len(got) != len(want) {
		x.Fail("wrong-result", "tree", "%s: holds %s, must hold %v", what, entries(got), v.m)
		return false
	}
	return true
}

func entries(l []utils.Entry) string {
	s := "{"
	for i := len(l) - 1; i >= 0; i-- {
		s += fmt.Sprintf("%d:%v ", l[i].Key, l[i].Value)
	}
	return s + "}"
}

func polyClient(x *X, shared []*polyVal, hist []polyOp) {
	w := simrt.Cur()
	f := utils.Field.ArithmeticField
	pool := []*polyVal{{t: utils.NewAvlTree(), m: poly{}}, {t: utils.NewAvlTree(), m: poly{}}}
	all := func(i int) *polyVal {
		i %= len(pool) + len(shared)
		if i < len(pool) {
			return pool[i]
		}
		return shared[i-len(pool)]
	}
	put := func(t *utils.AvlTree, m poly, what string) {
		v := &polyVal{t: t, m: m}
		if t == nil {
			x.Fail("wrong-result", "tree", "%s gave no polynomial", what)
			return
		}
		if checkTree(x, v, "result of "+what) {
			if len(pool) < 6 {
				pool = append(pool, v)
			} else {
				pool[len(m)%6] = v
			}
		}
	}
	removed := map[*polyVal]bool{}
	for step, o := range hist {
		if x.Failed() {
			return
		}
		own := pool[o.a%len(pool)]
		a, b := all(o.a), all(o.b)
		what := o.String()
		x.Note("%v", what)
		low := func(v *polyVal) bool { return v.m.deg() < 64 }
		switch o.kind {
		case opPutAdd:
			own.t.Put(o.key, cp(o.val), f.Add)
			own.m.add(o.key, o.val)
		case opPutMul:
			own.t.Put(o.key, cp(o.val), f.Mul)
			if old, ok := own.m[o.key]; ok {
				delete(own.m, o.key)
				own.m.add(o.key, fMul(old, o.val))
			}
		case opInsert:
			own.t.Insert(o.key, cp(o.val))
			delete(own.m, o.key)
			own.m.add(o.key, o.val)
		case opInsertNew:
			_, has := own.m[o.key]
			txt, p := TryS(func() { own.t.InsertNoOverwriteAllowed(o.key, cp(o.val)) })
			if p != has {
				x.Fail("wrong-result", "insert-new", "%s into %v: refused=%v %s", what, own.m, p, txt)
			}
			if !has {
				own.m.add(o.key, o.val)
			}
		case opRemove:
			k := o.key
			if ks := own.m.keys(); len(ks) > 0 && o.ascends {
				k = ks[o.n%len(ks)]
			}
			old, has := own.m[k]
			v, err := own.t.Remove(k)
			if has != (err == nil) || has && v.Cmp(old) != 0 {
				x.Fail("wrong-result", "remove", "removing %d from %v gave %v, %v", k, own.m, v, err)
			}
			delete(own.m, k)
			removed[own] = true
		case opGet:
			k := o.key
			if ks := a.m.keys(); len(ks) > 0 && o.ascends {
				k = ks[o.n%len(ks)]
			}
			want, has := a.m[k]
			v, err := a.t.Get(k)
			if has != (err == nil) || has && v.Cmp(want) != 0 || a.t.Has(k) != has {
				x.Fail("wrong-result", "get", "get %d from %v gave %v, %v, has %v", k, a.m, v, err, a.t.Has(k))
			}
			if a.t.Size() != len(a.m) || a.t.MaxPower() != a.m.deg() {
				x.Fail("wrong-result", "size", "%v: size %d, highest power %d", a.m, a.t.Size(), a.t.MaxPower())
			}
			if ks := a.m.keys(); len(ks) > 0 {
				if mx, mn := a.t.MaxNode(), a.t.MinNode(); mx.Key() != ks[len(ks)-1] || mn.Key() != ks[0] || mx.Value().Cmp(a.m[ks[len(ks)-1]]) != 0 || mn.Value().Cmp(a.m[ks[0]]) != 0 {
					x.Fail("wrong-result", "extremes", "%v: highest %v lowest %v", a.m, mx, mn)
				}
			}
		case opWalk:
			var got []utils.Entry
			for ch := a.t.ChannelNodes(o.ascends); ; {
				e, ok := ch.Recv2()
				if !ok {
					break
				}
				got = append(got, e)
				stall(1, 30)
			}
			ks := a.m.keys()
			ok := len(got) == len(ks)
			for i := 0; ok && i < len(ks); i++ {
				k := ks[i]
				if !o.ascends {
					k = ks[len(ks)-1-i]
				}
				ok = got[i].Key == k && got[i].Value.Cmp(a.m[k]) == 0
			}
			if !ok {
				x.Fail("wrong-result", "walk", "walking %v (ascending %v) gave %v", a.m, o.ascends, got)
			}
		case opDescend:
			_ = a.t.String()
			checkTree(x, a, "descending walk")
		case opToArray:
			if !low(a) {
				continue
			}
			n := int(a.m.deg()) + 1 + o.n
			arr := a.t.ToArray(n)
			if len(arr) != n || !pEq(pFromSlice(arr), a.m) || !reducedAll(arr) {
				x.Fail("wrong-result", "to-array", "array of %v is %v", a.m, arr)
			}
		case opClone:
			put(a.t.Clone(), a.m.clone(), "clone")
		case opAdd:
			put(f.AddToSparse(a.t, b.t), pAdd(a.m, b.m), what)
		case opSub:
			put(f.SubToSparse(a.t, b.t), pSub(a.m, b.m), what)
		case opMul:
			if len(a.m)*len(b.m) > 900 || a.m.deg() > 1<<40 || b.m.deg() > 1<<40 {
				continue
			}
			put(f.MulSparse(a.t, b.t), pMul(a.m, b.m), what)
		case opScale:
			put(f.MulSparseScalar(a.t, o.val), pScale(a.m, o.val), what)
		case opDiv:
			if !low(a) || !low(b) || len(b.m) == 0 {
				continue
			}
			q, r := f.DivideSparse(a.t, b.t)
			wq, wr := pDiv(a.m, b.m)
			if len(b.m) == 1 {
				w.Probe("division by a monomial")
			}
			put(q, wq, "quotient of "+what)
			put(r, wr, "remainder of "+what)
		case opEval:
			if got := f.EvalSparsePoly(a.t, cp(o.val)); got.Cmp(pEval(a.m, o.val)) != 0 {
				x.Fail("wrong-result", "eval", "%v at %v gave %v, is %v", a.m, o.val, got, pEval(a.m, o.val))
			}
		case opInterp:
			if a.m.deg() > 13 {
				continue
			}
			n := int(a.m.deg()) + 1 + o.n%3
			put(f.InterpolateSparseArray(a.t, n), pInterp(a.m, n), what)
			arr := make([]*big.Int, n)
			for i := range arr {
				arr[i] = bi(0)
				if v, ok := a.m[uint(i)]; ok {
					arr[i] = cp(v)
				}
			}
			keep := cpv(arr)
			d := utils.Field.PolynomialField.LagrangeInterpolation(arr)
			checkDense(x, d, pInterp(a.m, n), "interpolation of "+a.m.String())
			sameVec(x, arr, keep, "interpolation")
		case opInterpVec:
			vec := cpv(o.vec[:1+o.n])
			m := pFromSlice(vec)
			if o.ascends {
				put(f.InterpolateSparseArray(buildTree(m), len(vec)), pInterp(m, len(vec)), what)
			} else {
				checkDense(x, utils.Field.PolynomialField.LagrangeInterpolation(vec), pInterp(m, len(vec)), what)
				sameVec(x, vec, o.vec[:1+o.n], "interpolation")
			}
		case opScalarProduct:
			if a.m.deg() >= 15 {
				continue
			}
			want := bi(0)
			for k, v := range a.m {
				want = fAdd(want, fMul(v, o.vec[k]))
			}
			vec := cpv(o.vec)
			if got := f.SparseScalarProduct(a.t, vec); got.Cmp(want) != 0 {
				x.Fail("wrong-result", "scalar-product", "%v times %v gave %v, is %v", a.m, o.vec, got, want)
			}
			sameVec(x, vec, o.vec, "scalar product")
		case opCombine:
			if own.m.deg() >= 15 {
				continue
			}
			want := poly{}
			for k, v := range own.m {
				want.add(k, fMul(v, o.vec[k]))
			}
			if len(want) < len(own.m) {
				w.Probe("combination that cancels terms")
			}
			// this one works in place
			vec := cpv(o.vec)
			if r := f.Combine(own.t, vec); r != own.t {
				put(r, want, what)
			} else {
				own.m = want
			}
			sameVec(x, vec, o.vec, "combine")
		case opLinear:
			vec := cpv(o.vec[:2])
			ts := []*utils.AvlTree{a.t, b.t}
			l := f.LinearCombine(ts, vec)
			put(l[0], pScale(a.m, o.vec[0]), what)
			put(l[1], pScale(b.m, o.vec[1]), what)
			put(f.AddPolynomials(l), pAdd(pScale(a.m, o.vec[0]), pScale(b.m, o.vec[1])), "sum of "+what)
		case opTranspose:
			if a.m.deg() >= 15 || b.m.deg() >= 15 {
				continue
			}
			rows := []*polyVal{a, b, own, all(o.a + o.b)}[:1+o.n%4]
			for _, v := range rows {
				if v.m.deg() >= 15 {
					rows = rows[:1]
				}
			}
			var ts []*utils.AvlTree
			for _, v := range rows {
				ts = append(ts, v.t)
			}
			tr := utils.TransposeSparse(ts, 15)
			if len(tr) != 15 {
				x.Fail("wrong-result", "transpose", "a transpose into 15 columns has %d", len(tr))
			}
			for k := range tr {
				m := poly{}
				for y, row := range rows {
					if v, ok := row.m[uint(k)]; ok {
						m[uint(y)] = v
					}
				}
				checkTree(x, &polyVal{t: tr[k], m: m}, fmt.Sprintf("column %d of the transpose", k))
			}
		case opFromArray:
			vec := cpv(o.vec)
			put(utils.NewSparseArrayFromArray(vec), pFromSlice(o.vec), what)
			sameVec(x, vec, o.vec, "from array")
		case opDense:
			denseOps(x, o)
		case opBulk: // many insertions or removals in one go
			for i, k := range o.perm {
				if o.ascends {
					own.t.Remove(k)
					delete(own.m, k)
					removed[own] = true
				} else {
					own.t.Insert(k, cp(o.vec[i%3]))
					own.m[k] = o.vec[i%3]
				}
			}
			checkTree(x, own, "after "+what)
		case opNew:
			pool[o.a%len(pool)] = &polyVal{t: utils.NewSparseArrayWith(o.key, cp(o.val)), m: func() poly { m := poly{}; m.add(o.key, o.val); return m }()}
		}
		if o.kind <= opRemove {
			checkTree(x, own, "after "+what)
		} else {
			checkTree(x, own, "operand after "+what)
			checkTree(x, a, "operand after "+what)
			checkTree(x, b, "operand after "+what)
		}
		if step >= 4 && o.kind >= opClone && (removed[a] || removed[b]) {
			x.Nontrivial()
		}
	}
	for _, v := range pool {
		checkTree(x, v, "a polynomial at the end of its history")
	}
}

func cpv(l []*big.Int) []*big.Int {
	r := make([]*big.Int, len(l))
	for i := range l {
		r[i] = cp(l[i])
	}
	return r
}

func sameVec(x *X, a, b []*big.Int, what string) bool {
	if len(a) == len(b) {
		i := 0
		for i < len(a) && a[i].Cmp(b[i]) == 0 {
			i++
		}
		if i == len(a) {
			return true
		}
	}
	x.Fail("operand-changed", what, "%s changed its operand from %v to %v", what, b, a)
	return false
}

func reducedAll(l []*big.Int) bool {
	for _, v := range l {
		if v == nil || v.Sign() < 0 || v.Cmp(refQ) >= 0 {
			return false
		}
	}
	return true
}

func checkDense(x *X, got []*big.Int, want poly, what string) {
	if !reducedAll(got) || !pEq(pFromSlice(got), want) {
		x.Fail("wrong-result", "dense", "%s gave %v, is %v", what, got, want)
	}
}

// denseOps runs the dense counterparts on the operation's vector.
func denseOps(x *X, o polyOp) {
	pf := utils.Field.PolynomialField
	f := utils.Field.ArithmeticField
	na, nb := 1+o.a*o.scale, 1+o.b%6*o.scale
	a, b := cpv(o.vec[:na]), cpv(o.vec[na:na+nb])
	ka, kb := cpv(a), cpv(b)
	pa, pb := pFromSlice(a), pFromSlice(b)
	s := cp(o.val)
	switch o.n {
	case 0:
		checkDense(x, pf.Mul(a, b), pMul(pa, pb), fmt.Sprintf("dense product of %v and %v", ka, kb))
	case 1:
		checkDense(x, pf.Add(a, b), pAdd(pa, pb), fmt.Sprintf("dense sum of %v and %v", ka, kb))
	case 2:
		checkDense(x, pf.Sub(a, b), pSub(pa, pb), fmt.Sprintf("dense difference of %v and %v", ka, kb))
	case 3:
		if b[nb-1].Sign() == 0 {
			b[nb-1] = bi(1)
			kb = cpv(b)
			pb = pFromSlice(b)
		}
		q, r := pf.Div(a, b)
		wq, wr := pDiv(pa, pb)
		what := fmt.Sprintf("of %v by %v", ka, kb)
		checkDense(x, q, wq, "dense quotient "+what)
		checkDense(x, r, wr, "dense remainder "+what)
	case 4:
		checkDense(x, pf.MulScalar(a, s), pScale(pa, o.val), "dense scaling")
		checkDense(x, pf.AddPolynomials([][]*big.Int{a, b}), pAdd(pa, pb), "dense sum")
		l := pf.LinearCombine([][]*big.Int{a, b}, []*big.Int{s, bi(3)})
		checkDense(x, l[0], pScale(pa, o.val), "dense linear combination")
		checkDense(x, l[1], pScale(pb, bi(3)), "dense linear combination")
	case 5:
		if got := f.EvalPoly(a, s); red(got).Cmp(pEval(pa, o.val)) != 0 {
			x.Fail("wrong-result", "dense", "dense evaluation of %v at %v gave %v", ka, o.val, got)
		}
	case 6:
		n := 1 + o.a*o.scale
		want := poly{0: bi(1)}
		for i := 0; i < n; i++ {
			t := poly{1: bi(1)}
			t.add(0, bi(int64(-i)))
			want = pMul(want, t)
		}
		checkDense(x, pf.DomainPolynomial(n), want, fmt.Sprintf("domain polynomial of %d points", n))
	case 7:
		n := 1 + o.a*o.scale
		if o.key%2 == 0 {
			n = 1 + int(o.key/2)%30
		}
		pos := (o.b + int(o.key)) % n
		data := poly{}
		data.add(uint(pos), o.val)
		checkDense(x, pf.NewPolZeroAt(pos, n, s), pInterp(data, n), "polynomial zero at all but one point")
	case 8:
		sc := bi(0)
		n := na
		if nb < n {
			n = nb
		}
		for i := 0; i < n; i++ {
			sc = fAdd(sc, fMul(a[i], b[i]))
		}
		if got := f.ScalarProduct(a[:n], b[:n]); got.Cmp(sc) != 0 {
			x.Fail("wrong-result", "scalar", "scalar product %v gave %v", sc, got)
		}
		zero, same := len(pa) == 0, na == nb
		for i := 0; same && i < na; i++ {
			same = a[i].Cmp(b[i]) == 0
		}
		if utils.IsZeroArray(a) != zero || utils.BigArraysEqual(a, b) != same || !utils.BigArraysEqual(a, ka) {
			x.Fail("wrong-result", "scalar", "%v: called zero %v, equal to %v %v", ka, utils.IsZeroArray(a), kb, utils.BigArraysEqual(a, b))
		}
		m := utils.Transpose([][]*big.Int{a[:n], b[:n]})
		for i := 0; i < n; i++ {
			if len(m) != n || m[i][0].Cmp(a[i]) != 0 || m[i][1].Cmp(b[i]) != 0 {
				x.Fail("wrong-result", "transpose", "transpose of %v gave %v", a, m)
			}
		}
	case 9:
		u, v := a[0], b[0]
		chk := func(name string, got, want *big.Int) {
			if got == nil || got.Cmp(want) != 0 {
				x.Fail("wrong-result", "scalar", "%s of %v and %v gave %v, is %v", name, u, v, got, want)
			}
		}
		chk("sum", f.Add(u, v), fAdd(u, v))
		chk("difference", f.Sub(u, v), fSub(u, v))
		chk("product", f.Mul(u, v), fMul(u, v))
		chk("double", f.Double(u), fAdd(u, u))
		chk("negation", f.Neg(u), fSub(bi(0), u))
		chk("square", f.Square(u), fMul(u, u))
		chk("inverse", f.Inverse(u), fInv(u))
		if v.Sign() != 0 {
			chk("quotient", f.Div(u, v), fMul(u, fInv(v)))
		}
		chk("power", f.Exp(u, v), new(big.Int).Exp(u, v, refQ))
		chk("small power", f.ExpInt(u, o.key), new(big.Int).Exp(u, new(big.Int).SetUint64(uint64(o.key)), refQ))
		if f.Equal(u, v) != (u.Cmp(v) == 0) || f.IsZero(u) != (u.Sign() == 0) {
			x.Fail("wrong-result", "scalar", "equality of %v and %v", u, v)
		}
		chk("text", func() *big.Int { r, _ := f.StringToFieldElement(u.String()); return r }(), u)
		chk("reduction", f.Affine(new(big.Int).Neg(u)), fSub(bi(0), u))
		// other representatives of the same elements
		up := new(big.Int).Add(u, new(big.Int).Mul(refQ, bi(int64(1+o.key%3))))
		dn := new(big.Int).Sub(u, new(big.Int).Mul(refQ, bi(int64(1+o.key/4%3))))
		vp := new(big.Int).Add(v, refQ)
		chk("reduction of a larger one", f.Affine(up), u)
		chk("reduction of a smaller one", f.Affine(dn), u)
		chk("reduction", f.Affine(u), u)
		chk("text of a larger one", func() *big.Int { r, _ := f.StringToFieldElement(up.String()); return r }(), u)
		chk("sum of unreduced", f.Add(up, dn), fAdd(u, u))
		chk("difference of unreduced", f.Sub(up, vp), fSub(u, v))
		chk("product of unreduced", f.Mul(up, vp), fMul(u, v))
		chk("negation of unreduced", f.Neg(up), fSub(bi(0), u))
		chk("square of unreduced", f.Square(dn), fMul(u, u))
		if !f.Equal(up, u) || !f.Equal(dn, up) || f.Equal(up, vp) != (u.Cmp(v) == 0) {
			x.Fail("wrong-result", "scalar", "equality of other representatives of %v and %v", u, v)
		}
	}
	sameVec(x, a, ka, "a dense operation")
	sameVec(x, b, kb, "a dense operation")
	if s.Cmp(o.val) != 0 {
		x.Fail("operand-changed", "scalar", "a dense operation changed its scalar")
	}
}
