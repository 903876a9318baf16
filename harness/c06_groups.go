package main

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// el is a library element with what it must be.
type el struct {
	g  int // 1, 2, 3 (target group)
	e1 *bn256.G1
	e2 *bn256.G2
	et *bn256.GT
	k  *big.Int // discrete logarithm
	p  ept
	f  ft
}

func (e *el) want() []byte {
	switch e.g {
	case 1:
		return g1Bytes(e.p)
	case 2:
		return g2Bytes(e.p)
	}
	return ftBytes(e.f)
}

// rawCopy copies the element in whatever representation it has, and serialises the copy.
func (e *el) bytes() []byte {
	switch e.g {
	case 1:
		z := new(bn256.G1).ScalarBaseMult(bi(0))
		return new(bn256.G1).Add(e.e1, z).Marshal()
	case 2:
		z := new(bn256.G2).ScalarBaseMult(bi(0))
		return new(bn256.G2).Add(e.e2, z).Marshal()
	}
	return new(bn256.GT).Add(e.et, bn256.OneGT()).Marshal()
}

func checkEl(x *X, e *el, what string) bool {
	if got := e.bytes(); !bytes.Equal(got, e.want()) {
		x.Fail("wrong-element", what, "group %d, %s: is %x, must be %x (exponent %v)", e.g, what, got, e.want(), e.k)
		return false
	}
	return true
}

type grpOp struct {
	kind    int
	g       int
	d, a, b int
	fresh   bool
	k       *big.Int
	n       int
}

const (
	gBase = iota
	gMul
	gAdd
	gNeg
	gMarshal
	gX
	gString
	gRound
	gPair
	gCheck
	gKinds
)

var grpNames = []string{"base-mult", "mult", "add", "neg", "marshal", "x", "string", "round-trip", "pair", "pairing-check"}

func (o grpOp) String() string {
	return fmt.Sprintf("%s g%d dst=%d a=%d b=%d fresh=%v k=%v n=%d", grpNames[o.kind], o.g, o.d, o.a, o.b, o.fresh, o.k, o.n)
}

func drawScalar(c *simrt.Choices) *big.Int {
	switch c.W.Pick(8, 1, 1, 1, 1, 1, 1, 1, 3) {
	case 0:
		return bi(int64(c.W.N(9)))
	case 1:
		return cp(refQ)
	case 2:
		return new(big.Int).Sub(refQ, bi(1))
	case 3:
		return new(big.Int).Add(refQ, bi(int64(1+c.W.N(3))))
	case 4:
		return new(big.Int).Sub(new(big.Int).Lsh(bi(1), 256), bi(int64(1+c.W.N(3))))
	case 5:
		return new(big.Int).Lsh(refQ, 1)
	case 6:
		return new(big.Int).Lsh(bi(1), uint(c.W.N(254)))
	case 7:
		if c.W.Chance(1, 8) { // sums and products of exponents that nobody reduced
			k := new(big.Int).Mul(drawField(c), drawField(c))
			k.Add(k, new(big.Int).Lsh(bi(c.W.Salt()), uint(c.W.N(700))))
			return k
		}
		return drawRim(c)
	}
	return drawField(c)
}

// newEl makes an element in a representation that its history decides:
// a sum (projective), a multiple, or a deserialised (affine) one.
func newEl(g int, k *big.Int, how int) *el {
	e := &el{g: g, k: red(k)}
	half := bi(int64(how % 7))
	switch g {
	case 1:
		e.p = refBase(1, k)
		if how%3 == 0 {
			e.e1 = new(bn256.G1)
			e.e1.Unmarshal(g1Bytes(e.p))
		} else {
			a := new(bn256.G1).ScalarBaseMult(half)
			b := new(bn256.G1)
			b.Unmarshal(g1Bytes(refBase(1, fSub(k, half))))
			e.e1 = new(bn256.G1).Add(a, b)
		}
	case 2:
		if how != 20 {
			// multiplications (and the order check of deserialising) are expensive here
			k = new(big.Int).Mod(k, bi(41))
			e.k = k
		}
		e.p = refBase(2, k)
		if k.Cmp(half) < 0 {
			half = bi(0)
		}
		if how == 18 {
			e.e2 = new(bn256.G2)
			e.e2.Unmarshal(g2Bytes(e.p))
		} else {
			a := new(bn256.G2).ScalarBaseMult(half)
			b := new(bn256.G2).ScalarBaseMult(fSub(k, half))
			e.e2 = new(bn256.G2).Add(a, b)
		}
	case 3:
		if how != 20 {
			k = new(big.Int).Mod(k, bi(61))
			e.k = k
		}
		e.f = refEExp(k)
		e.et = new(bn256.GT)
		e.et.Unmarshal(ftBytes(e.f))
	}
	return e
}

func init() {
	register(&Prop{
		ID: "C06", Quick: 13000, Thorough: 1200000,
		Rule:       "A run draws up to 3 clients, each with up to 14 operations (base multiplication, multiplication, addition, negation, serialising, printing, x coordinate, round trip, pairing, pairing product check) of the three groups on its own elements and on elements shared by all clients, with fresh or aliased destinations, equal and inverse operands, the identity, scalars 0, small, around and beyond the order and the field, unreduced up to 1000 bits, under a random schedule. Non-trivial: an aliased destination, or a shared element used by two clients.",
		Real:       []string{"pairing: all of it"},
		Stub:       []string{"goroutine scheduler (simulated)"},
		Assume:     []string{"affine reference arithmetic of the three groups in harness/refcurve.go with the published generators and the pairing of the generators as a constant", "negative scalars and never-set elements as operands are outside the contract"},
		FaultKinds: []string{"stalled-client"},
		Run:        runC06,
	})
}

func runC06(x *X) {
	c := x.C
	nc := 1 + c.W.Pick(2, 2, 1)
	ops := make([][]grpOp, nc)
	pairs := 0
	var desc strings.Builder
	readers := c.W.Chance(1, 3) // mostly reading operations on shared elements
	for i := range ops {
		n := 1 + c.W.N(14)
		for k := 0; k < n; k++ {
			o := grpOp{kind: c.W.Pick(2, 3, 8, 3, 3, 1, 1, 1, 1, 1), g: 1 + c.W.Pick(5, 4, 2), d: c.W.N(3), a: c.W.N(6), b: c.W.N(6), fresh: c.W.Chance(1, 4), n: c.W.N(8)}
			if readers {
				o.kind = c.W.Pick(0, 1, 3, 1, 4, 1, 2, 0, 0, 0)
				o.a, o.b = 3+c.W.N(3), 3+c.W.N(3)
			}
			switch o.kind {
			case gBase, gMul:
				o.k = drawScalar(c)
			case gPair, gCheck:
				if pairs++; pairs > 2 {
					o.kind = gAdd
				}
			}
			ops[i] = append(ops[i], o)
			if c.W.Chance(1, 10) {
				// the same once more with the same objects, one of which has got another value in place
				if o.kind != gPair && pairs < 1 && c.W.Chance(1, 3) {
					o.kind, o.a, o.b = gPair, c.W.N(3), c.W.N(3)
					ops[i] = append(ops[i], o)
					pairs++
				}
				ch := grpOp{kind: gAdd, g: o.g, d: o.a, a: o.a, b: c.W.N(6)}
				if o.kind == gPair || o.kind == gCheck {
					pairs++
					ch.g = 1 + c.W.N(2)
					if ch.g == 2 {
						ch.d, ch.a = o.b, o.b
					}
				}
				if ch.d < 3 && pairs <= 2 {
					ops[i] = append(ops[i], ch, o)
				}
			}
			if o.kind <= gNeg && !o.fresh && (o.a == o.d || o.b == o.d) || nc > 1 && o.a >= 3 {
				x.Nontrivial()
			}
		}
		fmt.Fprintf(&desc, "client %d: %v; ", i, ops[i])
	}
	type init struct {
		k   *big.Int
		how int
	}
	var inits []init
	for i := 0; i < (nc+1)*9; i++ {
		inits = append(inits, init{drawScalar(c), c.W.N(21)})
		fmt.Fprintf(&desc, "%v/%d ", inits[i].k, inits[i].how)
	}
	x.Work(desc.String())
	x.Sample("%.1500s", desc.String())
	x.Sim(Opt{}, func() {
		mk := func(i int) (p [4][]*el) {
			for g := 1; g <= 3; g++ {
				for k := 0; k < 3; k++ {
					t := inits[i*9+(g-1)*3+k]
					p[g] = append(p[g], newEl(g, t.k, t.how))
				}
			}
			return
		}
		shared := mk(nc)
		fs := make([]func(), nc)
		for i := range fs {
			i := i
			fs[i] = func() { groupClient(x, mk(i), shared, ops[i]) }
		}
		for i, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("panic", o.Panic, "client %d: %s", i, o.Panic)
			}
		}
		for g := 1; g <= 3; g++ {
			for _, e := range shared[g] {
				checkEl(x, e, "a shared element after the run")
			}
		}
		checkConstants(x)
	})
}

// checkConstants: the package's own values are what they were.
func checkConstants(x *X) {
	if bn256.Order.Cmp(refQ) != 0 || bn256.P.Cmp(refP) != 0 || utils.Field.ArithmeticField.Q.Cmp(refQ) != 0 {
		x.Fail("constant-changed", "modulus", "order %v, prime %v, field %v", bn256.Order, bn256.P, utils.Field.ArithmeticField.Q)
	}
	if !bytes.Equal(new(bn256.G1).ScalarBaseMult(bi(1)).Marshal(), g1Bytes(refG1)) || !bytes.Equal(new(bn256.G2).ScalarBaseMult(bi(1)).Marshal(), g2Bytes(refG2)) {
		x.Fail("constant-changed", "generator", "a generator changed")
	}
}

func groupClient(x *X, own, shared [4][]*el, ops []grpOp) {
	w := simrt.Cur()
	for _, o := range ops {
		if x.Failed() {
			return
		}
		stall(1, 30)
		pick := func(g, i int) *el {
			if i < 3 {
				return own[g][i]
			}
			return shared[g][i-3]
		}
		a, b := pick(o.g, o.a), pick(o.g, o.b)
		what := grpNames[o.kind]
		x.Note("%v", o)
		dst := own[o.g][o.d]
		if o.kind <= gNeg {
			if o.fresh {
				dst = &el{g: o.g, e1: new(bn256.G1), e2: new(bn256.G2), et: new(bn256.GT)}
			} else {
				if dst == a || dst == b {
					what += " in place"
					w.Probe("aliased destination")
				}
			}
		}
		var k, sk *big.Int
		var p ept
		var f ft
		if o.k != nil {
			sk = cp(o.k)
		}
		switch o.kind {
		case gBase:
			switch o.g {
			case 1:
				p, k = refBase(1, o.k), red(o.k)
				dst.e1.ScalarBaseMult(sk)
			case 2:
				p, k = refBase(2, o.k), red(o.k)
				dst.e2.ScalarBaseMult(sk)
			case 3:
				continue
			}
		case gMul:
			k = fMul(a.k, o.k)
			switch o.g {
			case 1:
				p = refBase(1, k)
				dst.e1.ScalarMult(a.e1, sk)
			case 2:
				p = refBase(2, k)
				dst.e2.ScalarMult(a.e2, sk)
			case 3:
				f = refEExp(k)
				dst.et.ScalarMult(a.et, sk)
			}
		case gAdd:
			k = fAdd(a.k, b.k)
			if a.k.Cmp(b.k) == 0 {
				w.Probe("sum of equal elements")
			}
			if k.Sign() == 0 {
				w.Probe("sum is the identity")
			}
			switch o.g {
			case 1:
				p = eAdd(a.p, b.p)
				dst.e1.Add(a.e1, b.e1)
			case 2:
				p = eAdd(a.p, b.p)
				dst.e2.Add(a.e2, b.e2)
			case 3:
				f = ftMul(a.f, b.f)
				dst.et.Add(a.et, b.et)
			}
		case gNeg:
			k = fSub(bi(0), a.k)
			switch o.g {
			case 1:
				p = eNeg(a.p)
				dst.e1.Neg(a.e1)
			case 2:
				continue
			case 3:
				f = refEExp(k)
				dst.et.Neg(a.et)
			}
		case gMarshal, gRound:
			var got []byte
			switch o.g {
			case 1:
				got = a.e1.Marshal()
			case 2:
				got = a.e2.Marshal()
			case 3:
				got = a.et.Marshal()
			}
			if !bytes.Equal(got, a.want()) {
				x.Fail("wrong-bytes", "marshal", "group %d: serialised as %x, is %x", o.g, got, a.want())
			}
			if o.kind == gRound {
				ok := true
				switch o.g {
				case 1:
					rest, err := dst.e1.Unmarshal(got)
					ok = err == nil && len(rest) == 0
				case 2:
					rest, err := dst.e2.Unmarshal(got)
					ok = err == nil && len(rest) == 0
				case 3:
					_, ok = dst.et.Unmarshal(got)
				}
				if !ok {
					x.Fail("refused", "round-trip", "group %d: own bytes %x refused", o.g, got)
				}
				dst.k, dst.p, dst.f = a.k, a.p, a.f
			}
		case gX:
			if o.g == 1 {
				want := bi(0)
				if !a.p.inf {
					want = a.p.x.a
				}
				if got := a.e1.X(); got.Cmp(want) != 0 {
					x.Fail("wrong-bytes", "x", "x coordinate %v, is %v", got, want)
				}
			}
		case gString:
			switch o.g {
			case 1:
				_ = a.e1.String()
			case 2:
				_ = a.e2.String()
			case 3:
				_ = a.et.String()
			}
		case gPair:
			p1, p2 := pick(1, o.a), pick(2, o.b)
			k = fMul(p1.k, p2.k)
			r := &el{g: 3, et: bn256.Pair(p1.e1, p2.e2), k: k, f: refEExp(k)}
			checkEl(x, r, "pairing")
			checkEl(x, p1, "operand after pairing")
			checkEl(x, p2, "operand after pairing")
			own[3][o.d] = r
		case gCheck:
			p1, p2, p3, p4 := pick(1, o.a), pick(2, o.b), pick(1, o.d), pick(2, o.n%6)
			l1, l2 := []*bn256.G1{p1.e1, p3.e1}, []*bn256.G2{p2.e2, p4.e2}
			s := fAdd(fMul(p1.k, p2.k), fMul(p3.k, p4.k))
			if o.fresh {
				l1 = append(l1, new(bn256.G1).ScalarBaseMult(fSub(bi(0), s)))
				l2 = append(l2, new(bn256.G2).ScalarBaseMult(bi(1)))
				s = bi(0)
			}
			if got := bn256.PairingCheck(l1, l2); got != (s.Sign() == 0) {
				x.Fail("wrong-element", "pairing-check", "pairing product says %v for exponent %v", got, s)
			}
			for _, e := range []*el{p1, p2, p3, p4} {
				checkEl(x, e, "operand after pairing check")
			}
		}
		if sk != nil && sk.Cmp(o.k) != 0 {
			x.Fail("operand-changed", "scalar", "%v changed its scalar to %v", o, sk)
		}
		if o.kind <= gNeg {
			dst.k, dst.p, dst.f = k, p, f
			if o.fresh {
				own[o.g][o.d] = dst
			}
			checkEl(x, dst, what)
			if a != dst {
				checkEl(x, a, "operand after "+what)
			}
			if b != dst {
				checkEl(x, b, "operand after "+what)
			}
		} else {
			checkEl(x, a, "operand after "+what)
		}
	}
	for g := 1; g <= 3; g++ {
		for _, e := range own[g] {
			checkEl(x, e, "an element at the end of the history")
		}
	}
}
