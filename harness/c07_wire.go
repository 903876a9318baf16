package main

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func timeD(d int64) time.Duration { return time.Duration(d) }

// offGroup are points of the second curve that are not in the group.
var offGroup [][]byte

func fpSqrt(a *big.Int) *big.Int { return new(big.Int).ModSqrt(mp(a), refP) }

func f2sqrt(a fp2) (fp2, bool) {
	n := fpSqrt(new(big.Int).Add(new(big.Int).Mul(a.a, a.a), new(big.Int).Mul(a.b, a.b)))
	if n == nil {
		return fp2{}, false
	}
	half := new(big.Int).ModInverse(bi(2), refP)
	t := mp(new(big.Int).Mul(new(big.Int).Add(a.a, n), half))
	x := fpSqrt(t)
	if x == nil {
		t = mp(new(big.Int).Mul(new(big.Int).Sub(a.a, n), half))
		x = fpSqrt(t)
	}
	if x == nil || x.Sign() == 0 {
		return fp2{}, false
	}
	y := mp(new(big.Int).Mul(a.b, new(big.Int).ModInverse(mp(new(big.Int).Lsh(x, 1)), refP)))
	r := fp2{x, y}
	return r, f2mul(r, r).eq(a)
}

func offGroupPoint(i int) []byte {
	if offGroup == nil {
		for n := int64(1); len(offGroup) < 4; n++ {
			x := f2int(n, n*n%7)
			if y, ok := f2sqrt(f2add(f2mul(x, f2mul(x, x)), refB2)); ok {
				p := ept{x: x, y: y}
				if onCurve(p, refB2) && !eMul(p, refQ).inf {
					offGroup = append(offGroup, g2Bytes(p))
				}
			}
		}
	}
	return offGroup[i%len(offGroup)]
}

// mutateWire damages the bytes of an element of group g.
func mutateWire(c *simrt.Choices, g int, b []byte, other []byte) []byte {
	f := c.F
	nc := len(b) / 32
	coord := func(i int) []byte { return b[32*i : 32*i+32] }
	switch f.Pick(5, 2, 2, 2, 2, 2, 3, 2, 2, 2, 1, 1, 2) {
	case 0:
		i := f.N(len(b))
		b[i] ^= 1 << uint(f.N(8))
	case 1:
		b = b[:f.N(len(b))]
	case 2:
		for n := 1 + f.N(40); n > 0; n-- {
			b = append(b, byte(f.N(256)))
		}
	case 3: // a coordinate that is not reduced
		k := f.N(nc)
		v := new(big.Int).SetBytes(coord(k))
		v.Add(v, refP)
		if v.BitLen() <= 256 {
			copy(coord(k), v.FillBytes(make([]byte, 32)))
		}
	case 4:
		k := f.N(nc)
		copy(coord(k), make([]byte, 32))
	case 5:
		i, j := f.N(nc), f.N(nc)
		t := append([]byte(nil), coord(i)...)
		copy(coord(i), coord(j))
		copy(coord(j), t)
	case 6: // mixed with another message
		if len(other) == len(b) {
			k := f.N(nc)
			copy(coord(k), other[32*k:32*k+32])
		} else {
			b = append([]byte(nil), other...)
		}
	case 7: // the modulus itself, or all ones
		k := f.N(nc)
		if f.Chance(1, 2) {
			copy(coord(k), refP.FillBytes(make([]byte, 32)))
		} else {
			copy(coord(k), bytes.Repeat([]byte{255}, 32))
		}
	case 8:
		if g == 2 {
			copy(b, offGroupPoint(f.N(4)))
		} else {
			f.N(4)
			b[f.N(len(b))]++
		}
	case 9: // mirrored point
		k := nc / 2
		for i := k; i < nc; i++ {
			v := new(big.Int).SetBytes(coord(i))
			if v.Sign() > 0 && v.Cmp(refP) < 0 {
				copy(coord(i), new(big.Int).Sub(refP, v).FillBytes(make([]byte, 32)))
			}
		}
	case 10:
		copy(b, make([]byte, len(b)))
	case 11: // identity disguised by the modulus
		for i := 0; i < nc; i++ {
			copy(coord(i), refP.FillBytes(make([]byte, 32)))
		}
	case 12: // a point of the right order, but of another curve
		u, v := f2int(int64(2+f.N(9)), 0), f2int(int64(f.N(3)), int64(1+f.N(3)))
		emb := f.Chance(1, 2)
		switch p, q := parse(1, b), parse(2, b); {
		case g == 1 && !p.inf:
			u2 := f2mul(u, u)
			b = g1Bytes(ept{x: f2mul(u2, p.x), y: f2mul(f2mul(u2, u), p.y)})
		case g == 2 && emb: // of the first group
			p = refBase(1, bi(int64(1+f.N(5))))
			b = g2Bytes(ept{x: p.x, y: p.y})
		case g == 2 && !q.inf:
			if emb = f.Chance(1, 2); emb {
				v = u
			}
			v2 := f2mul(v, v)
			b = g2Bytes(ept{x: f2mul(v2, q.x), y: f2mul(f2mul(v2, v), q.y)})
		}
	}
	return b
}

// parse reads an element of one of the source groups; the identity stands for bytes that are none.
func parse(g int, b []byte) ept {
	if g == 1 {
		if p, ok := g1Parse(b); ok {
			return p
		}
	} else if p, ok := g2Parse(b); ok {
		return p
	}
	return ept{inf: true}
}

var g2Memo = map[string]bool{}

// refAccepts tells whether bytes are a valid element of group g.
func refAccepts(g int, b []byte) bool {
	switch g {
	case 1:
		_, ok := g1Parse(b)
		return ok
	case 2:
		if v, ok := g2Memo[string(b)]; ok {
			return v
		}
		_, ok := g2Parse(b)
		if len(g2Memo) > 4096 {
			g2Memo = map[string]bool{}
		}
		g2Memo[string(b)] = ok
		return ok
	}
	_, ok := ftParse(b)
	return ok
}

func init() {
	register(&Prop{
		ID: "C07", Quick: 50000, Thorough: 3000000,
		Rule:       "A run lets 1-3 senders serialise elements of the three groups (identity, generators, results of additions, negations and multiplications, deserialised ones) to 1-2 receivers over a network that loses, repeats, delays and damages messages (bit flips, truncation, extension, unreduced, zeroed, swapped or mixed coordinates, points outside the group, disguised identities). Receivers hold fresh elements and elements with a previous value. Non-trivial: at least one element arrived intact and one damaged message arrived.",
		Real:       []string{"pairing: Marshal, Unmarshal, group operations"},
		Stub:       []string{"network, scheduler, clock (simulated)"},
		Assume:     []string{"reference codec and curve equations in harness/refcurve.go", "for the target group only canonical coordinates are demanded, membership is not checked by the format"},
		FaultKinds: []string{"message-lost", "message-duplicated", "message-delayed", "message-damaged"},
		Run:        runC07,
	})
}

func runC07(x *X) {
	c := x.C
	ns, nr := 1+c.W.N(3), 1+c.W.N(2)
	type job struct {
		g, how, op int
		k          *big.Int
		to         int
	}
	jobs := make([][]job, ns)
	for i := range jobs {
		for n := 1 + c.W.N(5); n > 0; n-- {
			j := job{g: 1 + c.W.Pick(5, 3, 2), how: c.W.N(20), op: c.W.N(4), k: drawScalar(c), to: ns + c.W.N(nr)}
			jobs[i] = append(jobs[i], j)
			x.Work(fmt.Sprint(j.g, j.how, j.op, j.to) + j.k.String())
		}
	}
	cfg := NetCfg{Loss: c.F.N(150), Dup: c.F.N(300), Late: c.F.N(500), Damage: 200 + c.F.N(500), FaultsEnd: 1 << 60}
	damage := c.F.Chance(9, 10)
	if !damage {
		cfg.Damage = 0
	}
	x.Sample("%d senders, %d receivers, jobs %d, loss %d dup %d late %d damage %d per mille", ns, nr, len(jobs), cfg.Loss, cfg.Dup, cfg.Late, cfg.Damage)
	x.Sim(Opt{}, func() {
		var last []byte
		cfg.Mutate = func(c *simrt.Choices, m *Msg) {
			o := last
			if o == nil {
				o = m.Body
			}
			m.Body = mutateWire(c, int(m.Kind[0]-'0'), m.Body, o)
		}
		net := newNet(ns+nr, cfg)
		for i := 0; i < ns+nr; i++ {
			net.Up(i)
		}
		var intact, damaged int
		fs := []func(){}
		for i := range jobs {
			i := i
			fs = append(fs, func() {
				for n, j := range jobs[i] {
					e := newEl(j.g, j.k, j.how)
					sendHistory(e, j.op)
					b := e.marshal()
					if !bytes.Equal(b, e.want()) {
						x.Fail("wrong-bytes", "marshal", "group %d: serialised as %x, is %x", e.g, b, e.want())
						return
					}
					if b2 := e.marshal(); !bytes.Equal(b, b2) {
						x.Fail("wrong-bytes", "marshal-twice", "group %d: serialised as %x, then as %x", e.g, b, b2)
					}
					net.Send(Msg{From: i, To: j.to, Kind: fmt.Sprint(j.g), ID: n, Body: b})
					last = b
					stall(1, 10)
					for k := range b {
						b[k] = 0xaa // the caller owns the bytes
					}
					checkEl(x, e, "an element after the caller reused the bytes of its serialisation")
				}
			})
		}
		for r := 0; r < nr; r++ {
			r := r
			fs = append(fs, func() {
				regs := [4]*el{}
				for {
					m, ok := net.Recv(ns+r, 2000000)
					if !ok {
						return
					}
					g := int(m.Kind[0] - '0')
					want := refAccepts(g, m.Body)
					if regs[g] == nil {
						regs[g] = &el{g: g, e1: new(bn256.G1), e2: new(bn256.G2), et: new(bn256.GT)}
					}
					e := regs[g]
					var before []byte
					if e.k != nil {
						before = e.marshal()
					}
					buf := append([]byte(nil), m.Body...)
					acc := e.unmarshal(buf)
					if !bytes.Equal(buf, m.Body) {
						x.Fail("operand-changed", "bytes", "reading group %d changed the bytes", g)
					}
					if acc != want {
						x.Fail("wrong-verdict", fmt.Sprintf("group %d accepts=%v", g, acc), "group %d: %x accepted=%v, valid=%v", g, m.Body, acc, want)
						return
					}
					for k := range buf {
						buf[k] = 0x55
					}
					if m.Damaged {
						damaged++
					} else {
						intact++
						if !acc {
							x.Fail("refused", "refused", "group %d: %x refused", g, m.Body)
						}
					}
					if acc {
						e.k = bi(0)
						if got := e.marshal(); !bytes.Equal(got, m.Body) {
							x.Fail("wrong-bytes", "reserialise", "group %d: read from %x, serialises as %x", g, m.Body, got)
						}
						// the element is usable: e+e
						e.usable(x, m.Body)
					} else if before != nil {
						if got := e.marshal(); !bytes.Equal(got, before) {
							x.Fail("receiver-changed", fmt.Sprintf("group %d", g), "group %d: a refused read of %x changed the receiver from %x to %x", g, m.Body, before, got)
						}
						simrt.Cur().Probe("refused with a previous value")
					}
					stall(1, 10)
				}
			})
		}
		for i, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("panic", o.Panic, "node %d: %s", i, o.Panic)
			}
		}
		if intact > 0 && (damaged > 0 || !damage) {
			x.Nontrivial()
		}
		checkConstants(x)
	})
}

// sendHistory moves the element through some more operations.
func sendHistory(e *el, op int) {
	switch e.g {
	case 1:
		switch op {
		case 1:
			e.e1 = new(bn256.G1).Neg(e.e1)
			e.p, e.k = eNeg(e.p), fSub(bi(0), e.k)
		case 2:
			o := new(bn256.G1).Neg(e.e1)
			e.e1 = new(bn256.G1).Add(e.e1, o)
			e.p, e.k = refInf, bi(0)
		case 3:
			e.e1 = new(bn256.G1).Add(e.e1, e.e1)
			e.p, e.k = eAdd(e.p, e.p), fAdd(e.k, e.k)
		}
	case 2:
		switch op {
		case 1:
			e.e2 = new(bn256.G2).ScalarMult(e.e2, bi(0))
			e.p, e.k = refInf, bi(0)
		case 3:
			e.e2 = new(bn256.G2).Add(e.e2, e.e2)
			e.p, e.k = eAdd(e.p, e.p), fAdd(e.k, e.k)
		}
	case 3:
		switch op {
		case 1:
			e.et = new(bn256.GT).Neg(e.et)
			e.k = fSub(bi(0), e.k)
			e.f = refEExp(e.k)
		case 3:
			e.et = new(bn256.GT).Add(e.et, e.et)
			e.f, e.k = ftMul(e.f, e.f), fAdd(e.k, e.k)
		}
	}
}

func (e *el) marshal() []byte {
	switch e.g {
	case 1:
		return e.e1.Marshal()
	case 2:
		return e.e2.Marshal()
	}
	return e.et.Marshal()
}

func (e *el) unmarshal(b []byte) bool {
	switch e.g {
	case 1:
		rest, err := e.e1.Unmarshal(b)
		return err == nil && len(rest) == 0
	case 2:
		rest, err := e.e2.Unmarshal(b)
		return err == nil && len(rest) == 0
	}
	_, ok := e.et.Unmarshal(b)
	return ok
}

// usable adds the received element to itself and compares with the reference.
func (e *el) usable(x *X, b []byte) {
	var got, want []byte
	switch e.g {
	case 1:
		p, _ := g1Parse(b)
		want = g1Bytes(eAdd(p, p))
		got = new(bn256.G1).Add(e.e1, e.e1).Marshal()
		xc := bi(0)
		if !p.inf {
			xc = p.x.a
		}
		if e.e1.X().Cmp(xc) != 0 {
			x.Fail("wrong-element", "received", "x coordinate of a received element is %v, not %v", e.e1.X(), xc)
		}
	case 2:
		v := new(big.Int).SetBytes(b)
		p := refInf
		if v.Sign() != 0 {
			c := func(i int) *big.Int { return new(big.Int).SetBytes(b[32*i : 32*i+32]) }
			p = ept{x: fp2{c(1), c(0)}, y: fp2{c(3), c(2)}}
		}
		want = g2Bytes(eAdd(p, p))
		got = new(bn256.G2).Add(e.e2, e.e2).Marshal()
	case 3:
		f, _ := ftParse(b)
		want = ftBytes(ftMul(f, f))
		got = new(bn256.GT).Add(e.et, e.et).Marshal()
	}
	if !bytes.Equal(got, want) {
		x.Fail("wrong-element", "received", "group %d: a received element doubles to %x, not %x", e.g, got, want)
	}
}
