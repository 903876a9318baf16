package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/utils"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C08", Quick: 13000, Thorough: 1500000,
		Rule:       "A run draws 1-4 clients that consume randomness at the same time: field elements, random elements of both groups with their exponents (from the device or from readers of their own), witnesses of systems with the randomising gate, and, in a part of the runs, trusted setups in both representations. The simulated device fails at any read (for good, for a while, with an error or with end of data, delivering nothing or some bytes), delivers short reads, and blocks of zeros, ones or values around the order, up to 17 of them in a row (a device that is not ready yet). Every byte is recorded with its consumer; what an operation hands out is compared with the value those bytes give, and an operation whose source failed must not hand out anything. The secrets of a setup must be the values of five different blocks, none zero, none used twice, and its key must be the one they give. Setups are repeated with equal bytes under other schedules and in the other representation. Non-trivial: an operation whose source failed or fell short and another that succeeded.",
		Real:       []string{"utils: random field elements, polynomials", "pairing: random elements, base multiplication, pairing", "zkSNARK: trusted setup", "circuitcompiler: witness calculation"},
		Stub:       []string{"random device and readers, goroutine scheduler, clock (simulated)"},
		Assume:     []string{"a block of bytes gives the field element that the big-endian number modulo the order is; random group elements draw their exponent like crypto/rand.Int", "statistical quality of the device itself is outside the property"},
		FaultKinds: []string{"stalled-client", "entropy_error", "entropy_short_read", "entropy_special_bytes", "entropy_reader_error"},
		Run:        runC08,
	})
}

// frnd is the field element that a block of delivered bytes gives; nil if it has to be drawn again.
func frnd(b []byte) *big.Int {
	if v := red(new(big.Int).SetBytes(b)); v.Sign() != 0 {
		return v
	}
	return nil
}

const rndBlock = 30

// refRand splits the bytes of one consumer into the elements they give.
func refRand(b []byte) (l []*big.Int, rest int) {
	for ; len(b) >= rndBlock; b = b[rndBlock:] {
		if v := frnd(b[:rndBlock]); v != nil {
			l = append(l, v)
		}
	}
	return l, len(b)
}

// refExponent is what crypto/rand.Int makes of the bytes: the last block must be below the order and not zero.
func refExponent(b []byte) (*big.Int, bool) {
	n := (refQ.BitLen() + 7) / 8
	for i := 0; len(b) >= n; i++ {
		w := append([]byte(nil), b[:n]...)
		w[0] &= byte(1<<uint(refQ.BitLen()%8)) - 1
		b = b[n:]
		if v := new(big.Int).SetBytes(w); v.Sign() > 0 && v.Cmp(refQ) < 0 {
			return v, len(b) == 0
		}
	}
	return nil, false
}

// rdr is a reader of a client's own, with the faults of the device.
type rdr struct {
	c      *simrt.Choices
	got    []byte
	err    error
	failAt int // bytes
	short  bool
	eof    bool
	head   []byte
	salt   uint64
}

func (r *rdr) Read(b []byte) (int, error) {
	n := len(b)
	if r.short && n > 1 && r.c.F.Chance(1, 2) {
		n = r.c.F.N(n) // nothing at all is allowed as well
		simrt.Cur().Fault("entropy_short_read")
	}
	if r.failAt > 0 && len(r.got)+n >= r.failAt {
		n = r.failAt - 1 - len(r.got)
		r.err = simrt.ErrEntropy
		if r.eof {
			r.err = io.EOF
		}
		simrt.Cur().Fault("entropy_reader_error")
	}
	for i := 0; i < n; i++ {
		if k := len(r.got); k < len(r.head) {
			b[i] = r.head[k]
		} else {
			r.salt = mix64(r.salt)
			b[i] = byte(r.salt >> 20)
		}
		r.got = append(r.got, b[i])
	}
	simrt.Yield()
	return n, r.err
}

// specials are byte blocks that must not be handed out as they are.
func specialBytes(c *simrt.Choices, n int) []byte {
	b := make([]byte, 0, n)
	k, stuck := 1+c.F.N(3), -1
	if c.F.Chance(1, 4) { // a device that is not ready yet
		k, stuck = 4+c.F.N(14), c.F.Pick(3, 1, 1, 1, 1)
	}
	for ; k > 0; k-- {
		var w []byte
		kind := stuck
		if kind < 0 {
			kind = c.F.Pick(3, 1, 1, 1, 1)
		}
		switch kind {
		case 0:
			w = make([]byte, n)
		case 1:
			w = bytes.Repeat([]byte{0xff}, n)
		case 2:
			w = put32(nil, refQ)
		case 3:
			w = put32(nil, new(big.Int).Sub(refQ, bi(1)))
		case 4:
			w = put32(nil, bi(int64(c.F.N(3))))
		}
		if len(w) > n {
			w = w[len(w)-n:]
		}
		b = append(b, w...)
	}
	return b
}

type rndCons struct {
	got  []byte
	fail bool
}

func runC08(x *X) {
	c := x.C
	if c.W.Chance(1, 12) {
		c08Setup(x)
		return
	}
	ncl := 1 + c.W.N(4)
	type op struct {
		kind, n int
		own     *rdr
	}
	ops := make([][]op, ncl)
	desc := ""
	wit := false
	for i := range ops {
		for k := 1 + c.W.N(5); k > 0; k-- {
			o := op{kind: c.W.Pick(6, 3, 1, 2), n: c.W.N(4)}
			wit = wit || o.kind == 3
			if (o.kind == 1 || o.kind == 2) && c.W.Chance(2, 3) {
				o.own = &rdr{c: c, salt: uint64(c.W.Salt())}
				if c.F.Chance(1, 3) {
					o.own.failAt = 1 + c.F.N(100)
					o.own.eof = c.F.Chance(1, 2)
				}
				o.own.short = c.F.Chance(1, 2)
				if c.F.Chance(1, 2) {
					o.own.head = specialBytes(c, 32)
				}
			}
			desc += fmt.Sprintf("client %d: %d own=%v; ", i, o.kind, o.own != nil)
			ops[i] = append(ops[i], o)
		}
	}
	x.Work(desc)
	var failAt, failFor int
	if c.F.Chance(1, 2) {
		failAt = 1 + c.F.N(4*ncl)
		failFor = c.F.Pick(2, 1, 1)
	}
	eof := c.F.Chance(1, 3)
	short := c.F.Chance(1, 2)
	var heads []byte
	if c.F.Chance(1, 3) {
		heads = specialBytes(c, rndBlock)
	}
	x.Sample("%s fail at read %d for %d, short %v, special %x", desc, failAt, failFor, short, heads)
	seed := uint64(c.W.Salt())
	good, hurt := false, false
	x.Sim(Opt{}, func() {
		w := simrt.Cur()
		e := w.Entropy
		cons := make([]rndCons, ncl+1)
		e.OnRead = func(owner int, b []byte, err error) {
			cons[owner].got = append(cons[owner].got, b...)
			if err != nil {
				cons[owner].fail = true
			}
		}
		var a *art
		if wit {
			a = &art{prog: cc.Parse("func main(x,y){\nreturn x*y\n}\n", true)}
			a.gates = a.prog.Execute()
			a.dense, a.sparse = a.prog.GatesToR1CS(a.gates, true), a.prog.GatesToSparseR1CS(a.gates, true)
		}
		e.Seed(seed)
		e.FailAt, e.FailFor, e.Short = failAt, failFor, short
		if eof {
			e.Err = io.EOF
		}
		at := make([]int, ncl+1)
		if heads != nil {
			e.Fill = func(owner int, b []byte) bool {
				if owner == 0 || at[owner] >= len(heads) {
					return false
				}
				w.Fault("entropy_special_bytes")
				for i := range b {
					b[i] = 0x5a
					if at[owner] < len(heads) {
						b[i] = heads[at[owner]]
					}
					at[owner]++
				}
				return true
			}
		}
		var fs []func()
		for i := range ops {
			i := i
			fs = append(fs, func() {
				simrt.SetOwner(i + 1)
				for _, o := range ops[i] {
					stall(1, 10)
					me := &cons[i+1]
					*me = rndCons{}
					var v *big.Int
					var err error
					var el []byte
					none := true
					txt, pan := TryS(func() {
						var r io.Reader = simrt.RandReader
						if o.own != nil {
							r = o.own
						}
						switch o.kind {
						case 0:
							v, err = utils.Field.ArithmeticField.Rand()
							none = v == nil
						case 1:
							var g *bn256.G1
							v, g, err = bn256.RandomG1(r)
							if none = v == nil && g == nil; g != nil {
								el = g1fp(g)
							}
						case 2:
							var g *bn256.G2
							v, g, err = bn256.RandomG2(r)
							if none = v == nil && g == nil; g != nil {
								el = g2fp(g)
							}
						case 3:
							var l []*big.Int
							l, err = a.witnessOf(o.n%2 == 1, []string{"x", "y"}, []*big.Int{bi(int64(o.n)), bi(3)})
							if none = l == nil; !none {
								v = l[len(l)-2]
							}
						}
					})
					name := []string{"Rand", "RandomG1", "RandomG2", "witness"}[o.kind]
					bytes1, failed := me.got, me.fail
					if o.own != nil {
						bytes1, failed = o.own.got, o.own.err != nil
					}
					if pan && o.kind != 3 {
						x.Fail("randomness-panic", "randomness-panic|"+name, "%s panicked instead of returning an error: %s", name, txt)
						return
					}
					if pan {
						err, none = errors.New(txt), true
					}
					if failed {
						hurt = true
						if err == nil {
							x.Fail("failure-hidden", "failure-hidden|"+name, "%s: the source failed after delivering %x, but no failure was reported and %v handed out", name, bytes1, v)
							return
						}
						if !none {
							x.Fail("value-with-error", "value-with-error|"+name, "%s handed out %v together with the error %v", name, v, err)
							return
						}
						continue
					}
					if err != nil {
						x.Fail("failure-without-cause", "failure-without-cause|"+name, "%s failed (%v), although the source delivered all it was asked for: %x", name, err, bytes1)
						return
					}
					good = true
					hurt = hurt || short || o.own != nil && o.own.short
					var want *big.Int
					okb := false
					switch o.kind {
					case 0, 3:
						l, rest := refRand(bytes1)
						if len(l) == 1 && rest == 0 {
							want, okb = l[0], true
						}
					default:
						want, okb = refExponent(bytes1)
					}
					if v == nil || v.Sign() <= 0 || v.Cmp(refQ) >= 0 {
						x.Fail("unusable-value", "unusable-value|"+name, "%s handed out %v for the bytes %x", name, v, bytes1)
						return
					}
					if !okb || want == nil || v.Cmp(want) != 0 {
						x.Fail("not-the-bytes", "not-the-bytes|"+name, "%s handed out %v, but the delivered bytes %x give %v (used up: %v)", name, v, bytes1, want, okb)
						return
					}
					if o.kind == 1 && !bytes.Equal(el, g1Bytes(refBase(1, v))) || o.kind == 2 && !bytes.Equal(el, g2Bytes(refBase(2, v))) {
						x.Fail("wrong-element", "wrong-element|"+name, "%s: the element does not belong to the exponent %v", name, v)
						return
					}
				}
			})
		}
		for _, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("client-panic", "client-panic", "a client got a panic: %s", o.Panic)
			}
		}
	})
	if good && hurt {
		x.Nontrivial()
	}
}

func c08Setup(x *X) {
	c := x.C
	cfg, max := langCfg{stmts: 1, expo: true, small: true}, 4
	tall := c.W.Chance(1, 25)
	if tall {
		max, cfg = 50, langCfg{stmts: 1, small: true, tall: 8 + c.W.N(30)}
	}
	p, src := drawZk(x, max, cfg)
	if p == nil || x.Failed() {
		x.Probe("left-out: too large")
		return
	}
	ncl := 1 + c.W.Pick(3, 1)
	type try struct {
		sparse                bool
		failAt, failFor, head int
		seed                  uint64
		short, eof, full      bool
	}
	var tries []try
	seed := uint64(c.W.Salt())
	full := c.W.Chance(1, 3)
	for k := 2 + c.W.N(4); k > 0; k-- {
		t := try{sparse: c.W.Chance(1, 2), seed: seed, full: full}
		switch c.W.Pick(3, 1) {
		case 0:
			t.failAt = 1 + c.F.N(8)
			t.failFor = c.F.Pick(2, 1)
			t.eof = c.F.Chance(1, 3)
		default:
			t.seed = seed + uint64(c.W.N(2))
		}
		t.short = c.F.Chance(1, 2)
		tries = append(tries, t)
	}
	tries = append(tries, try{sparse: c.W.Chance(1, 2), seed: seed, full: full})
	if c.F.Chance(1, 4) {
		tries[len(tries)-1].head = 1 + c.F.N(4)
	}
	if tall {
		x.Probe("setup of more than 8 constraints")
		tries, ncl = tries[len(tries)-2:], 1
	}
	x.Work(src)
	x.Work(fmt.Sprint(tries))
	x.Sample("%s%+v", src, tries)
	x.Nontrivial()
	keys := map[string]string{}
	for _, t := range tries {
		t := t
		x.Sim(Opt{Budget: 200000000}, func() {
			w := simrt.Cur()
			e := w.Entropy
			z := compileZk(p, src)
			cons := make([]rndCons, ncl+1)
			e.OnRead = func(owner int, b []byte, err error) {
				cons[owner].got = append(cons[owner].got, b...)
				if err != nil {
					cons[owner].fail = true
				}
			}
			e.Seed(t.seed)
			e.FailAt, e.FailFor, e.Short = t.failAt, t.failFor, t.short
			if t.eof {
				e.Err = io.EOF
			}
			if t.head > 0 {
				left := t.head * rndBlock
				e.Fill = func(owner int, b []byte) bool {
					if left == 0 {
						return false
					}
					w.Fault("entropy_special_bytes")
					for i := range b {
						b[i] = 0
						if left == 0 {
							b[i] = 0x77
						} else {
							left--
						}
					}
					return true
				}
			}
			seen := map[string]bool{}
			var fs []func()
			for i := 0; i < ncl; i++ {
				i := i
				fs = append(fs, func() {
					simrt.SetOwner(i + 1)
					me := &cons[i+1]
					var s *zkSNARK.Setup
					var err error
					txt, pan := TryS(func() { s, err = z.setup(t.sparse != (i > 0)) })
					at := fmt.Sprintf("setup sparse=%v, bytes %x", t.sparse != (i > 0), me.got)
					if me.fail {
						if !pan && err == nil {
							x.Fail("failure-hidden", "failure-hidden|setup", "the source failed, but the setup reported no failure\n%s", at)
						}
						if s != nil {
							x.Fail("value-with-error", "value-with-error|setup", "a failing setup (%v) handed out its secrets\n%s", err, at)
						}
						return
					}
					if pan || err != nil || s == nil {
						x.Fail("failure-without-cause", "failure-without-cause|setup", "the setup failed (%s %v), although the source delivered all it was asked for\n%s\n%s", txt, err, at, src)
						return
					}
					l, rest := refRand(me.got)
					if len(l) != 5 || rest != 0 {
						x.Fail("not-the-bytes", "not-the-bytes|setup", "the setup drew %d bytes for its five secrets\n%s", len(me.got), at)
						return
					}
					sec := secrets{alpha: s.Toxic.Kalpha, beta: s.Toxic.Kbeta, gamma: s.Toxic.Kgamma, delta: s.Toxic.Kdelta}
					for n, k := range []*big.Int{sec.alpha, sec.beta, sec.gamma, sec.delta} {
						if k == nil || k.Sign() <= 0 || k.Cmp(refQ) >= 0 {
							x.Fail("unusable-value", "unusable-value|setup", "secret %d of the setup is %v\n%s", n, k, at)
							return
						}
						found := false
						for j, v := range l {
							if v.Cmp(k) == 0 {
								l = append(l[:j:j], l[j+1:]...)
								found = true
								break
							}
						}
						if !found {
							x.Fail("not-the-bytes", "not-the-bytes|setup", "secret %d of the setup, %v, is no value of a block of its own\n%s", n, k, at)
							return
						}
					}
					sec.x = l[0]
					if n := len(s.Pk.G1.PowersX); n > 1 && !bytes.Equal(g1fp(s.Pk.G1.PowersX[1]), g1Bytes(refBase(1, sec.x))) {
						x.Fail("not-the-bytes", "not-the-bytes|setup", "the evaluation point of the setup is not the value of the block left for it\n%s", at)
						return
					}
					if seen[sec.x.String()] {
						x.Fail("reused", "reused", "two setups have the same evaluation point\n%s", at)
					}
					seen[sec.x.String()] = true
					if t.full && !judgePk(x, z, &s.Pk, sec, at) {
						return
					}
					id := ints([]*big.Int{sec.x, sec.alpha, sec.beta, sec.gamma, sec.delta})
					d := pkDump(&s.Pk)
					if o, ok := keys[id]; ok && o != d {
						x.Fail("key-differs", "key-differs", "equal secrets gave another key\n%s\n%s", at, src)
					} else if ok {
						x.Probe("setup repeated with equal bytes")
					}
					keys[id] = d
				})
			}
			for _, o := range Join(fs...) {
				if o.Panic != "" {
					x.Fail("client-panic", "client-panic", "a client got a panic: %s", o.Panic)
				}
			}
		})
		if x.Failed() {
			return
		}
	}
}
