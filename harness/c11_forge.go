package main

import (
	"bytes"
	"fmt"
	"math/big"

	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

func init() {
	register(&Prop{
		ID: "C11", Quick: 1200, Thorough: 150000,
		Rule:       "A run draws a program, satisfying inputs, one or two keys (of the same or another program, dense or sparse) with known secrets, honest proofs, and 1-3 clients that present up to 6 cases each to the same keys at the same time and after each other: honest proofs; changed, swapped, re-divided, missing, additional, unreduced and negative public inputs, another constant one; elements replaced by the identity, the generator, random points, parts of the key, parts of other proofs, negated, doubled or shifted, swapped, or missing; proofs of other inputs, keys and programs; proofs whose bytes were damaged, truncated or mixed in transit; proofs made from a corrupted witness and a polynomial that does not belong to it. All elements are known by their discrete logarithms, so that the verification equation can be evaluated in the exponent with big integers: the verdict must be the one it gives, with no panic, key and proofs unchanged, whatever was verified before. A prover given a witness that does not satisfy the constraints must not return a proof. Non-trivial: an honest proof was accepted after a forged one was rejected.",
		Real:       []string{"circuitcompiler, utils, pairing, zkSNARK: all of it"},
		Stub:       []string{"message transport, random device, goroutine scheduler (simulated)"},
		Assume:     []string{"the secrets of the setup are the five blocks of bytes its random device delivered", "combinations of elements that solve the verification equation are other valid proofs of the same statement (the scheme is malleable by design) and are not counted as forgeries"},
		FaultKinds: []string{"stalled-client", "message-damaged", "message-mixed"},
		Run:        runC11,
	})
}

// pexp is a proof in the exponent.
type pexp struct{ a, b, c, f *big.Int }

type zkkey struct {
	z    *zkprog
	pk   *zkSNARK.Pk
	s    secrets
	cols [4][]*big.Int // L R E O of every column at x
	t    []*big.Int    // alpha R + beta (L+E) + O
	dump string
}

// newKey makes a key and finds its secrets; nil secrets if they cannot be told.
func newKey(z *zkprog, sparse bool) (*zkkey, error) {
	e := simrt.Cur().Entropy
	var got []byte
	e.OnRead = func(_ int, b []byte, _ error) { got = append(got, b...) }
	s, err := z.setup(sparse)
	e.OnRead = nil
	if err != nil {
		return nil, err
	}
	k := &zkkey{z: z, pk: &s.Pk, dump: pkDump(&s.Pk)}
	l, _ := refRand(got)
	if len(l) != 5 {
		return k, nil
	}
	for _, v := range []*big.Int{s.Toxic.Kalpha, s.Toxic.Kbeta, s.Toxic.Kgamma, s.Toxic.Kdelta} {
		for j := range l {
			if l[j].Cmp(v) == 0 {
				l = append(l[:j:j], l[j+1:]...)
				break
			}
		}
	}
	if len(l) != 1 {
		return k, nil
	}
	k.s = secrets{x: l[0], alpha: s.Toxic.Kalpha, beta: s.Toxic.Kbeta, gamma: s.Toxic.Kgamma, delta: s.Toxic.Kdelta}
	for j := 0; j < z.sys.width; j++ {
		for i := range k.cols {
			col := make([]*big.Int, z.sys.gates)
			for g := range col {
				col[g] = bi(0)
				if u := z.sys.rows[i][g][j]; u != nil {
					col[g] = u
				}
			}
			k.cols[i] = append(k.cols[i], pEval(refInterp(col), k.s.x))
		}
		k.t = append(k.t, fAdd(fAdd(fMul(k.s.alpha, k.cols[1][j]), fMul(k.s.beta, fAdd(k.cols[0][j], k.cols[2][j]))), k.cols[3][j]))
	}
	return k, nil
}

// honest is the proof that the witness gives, in the exponent; px is the value of its polynomial at x.
func (k *zkkey) honest(w []*big.Int, px *big.Int) *pexp {
	p := &pexp{cp(k.s.alpha), bi(0), bi(0), bi(0)}
	for j, v := range w {
		p.a = fAdd(p.a, fMul(v, fAdd(k.cols[0][j], k.cols[2][j])))
		p.b = fAdd(p.b, fMul(v, k.cols[1][j]))
		p.f = fAdd(p.f, fMul(v, k.cols[2][j]))
		if j >= k.z.pub {
			p.c = fAdd(p.c, fMul(v, k.t[j]))
		}
	}
	p.c = fMul(fAdd(p.c, px), fInv(k.s.delta))
	return p
}

// verdict evaluates the verification equation in the exponent.
func (k *zkkey) verdict(p *pexp, pub []*big.Int) bool {
	if len(pub) != k.z.pub {
		return false
	}
	ic := bi(0)
	for j, v := range pub {
		if v == nil || v.Sign() < 0 || v.Cmp(refQ) >= 0 || j == 0 && v.Cmp(bi(1)) != 0 {
			return false
		}
		ic = fAdd(ic, fMul(v, k.t[j]))
	}
	xf := bi(0)
	if p.f.Sign() != 0 {
		xf = red(refX(p.f))
	}
	l := fAdd(fMul(p.a, fAdd(p.b, k.s.beta)), xf)
	r := fAdd(fAdd(fMul(k.s.alpha, k.s.beta), ic), fAdd(fMul(p.c, k.s.delta), fMul(p.f, p.b)))
	return l.Cmp(r) == 0
}

func (p *pexp) at(i int) **big.Int { return []**big.Int{&p.a, &p.b, &p.c, &p.f}[i] }
func (p *pexp) clone() *pexp       { return &pexp{cp(p.a), cp(p.b), cp(p.c), cp(p.f)} }

// mk makes an element in one of several representations.
func mkG1(k *big.Int, how int) *bn256.G1 {
	switch how % 3 {
	case 0:
		return new(bn256.G1).ScalarBaseMult(red(k))
	case 1:
		e := new(bn256.G1)
		e.Unmarshal(g1Bytes(refBase(1, k)))
		return e
	}
	h := bi(int64(how))
	return new(bn256.G1).Add(new(bn256.G1).ScalarBaseMult(h), new(bn256.G1).ScalarBaseMult(fSub(k, h)))
}

func mkG2(k *big.Int, how int) *bn256.G2 {
	if how%4 == 1 {
		e := new(bn256.G2)
		e.Unmarshal(g2Bytes(refBase(2, k)))
		return e
	}
	return new(bn256.G2).ScalarBaseMult(red(k))
}

type honestProof struct {
	key    *zkkey
	w      []*big.Int
	pub    []*big.Int
	proof  *zkSNARK.Proof
	e      *pexp
	fp     string
	wire   []byte
	accept bool
}

type forge struct {
	kind, a, b, how int
	r               int
	delta           *big.Int
	share           bool
}

var forgeNames = []string{"honest", "public changed", "publics rearranged", "number of publics", "other constant", "public outside of the field", "element replaced", "elements swapped", "proof of other inputs", "other key", "missing element", "damaged message", "corrupted witness, other polynomial", "proving a corrupted witness", "two elements replaced"}

func runC11(x *X) {
	c := x.C
	cfg := langCfg{stmts: 2, expo: c.W.Chance(1, 8), div: true, small: c.W.Chance(3, 4)}
	p, src := drawZk(x, 5, cfg)
	if p == nil || x.Failed() {
		x.Probe("left-out: too large")
		return
	}
	var inputs [][]*big.Int
	for try := 0; try < 6 && len(inputs) < 2; try++ {
		if ev := p.eval(p.drawInputs(c)); ev.ok && !ev.unsat && !ev.ambiguous {
			inputs = append(inputs, cloneInts(ev.inputs))
		}
	}
	if len(inputs) == 0 {
		x.Probe("left-out: no satisfying inputs")
		return
	}
	var p2 *program
	var src2 string
	var in2 []*big.Int
	keys := 1
	if c.W.Chance(1, 2) {
		keys = 2
		if c.W.Chance(1, 2) {
			p2, src2 = drawZk(x, 3, langCfg{stmts: 1, small: true, div: true})
			if p2 != nil {
				if ev := p2.eval(p2.drawInputs(c)); ev.ok && !ev.unsat && !ev.ambiguous {
					in2 = cloneInts(ev.inputs)
				} else {
					p2 = nil
				}
			}
		}
	}
	if x.Failed() {
		return
	}
	sparse := [4]bool{c.W.Chance(1, 2), c.W.Chance(1, 2), c.W.Chance(1, 2), c.W.Chance(1, 2)}
	ncl := 1 + c.W.Pick(3, 2, 1)
	cases := make([][]forge, ncl)
	for i := range cases {
		for k := 2 + c.W.N(9/ncl); k > 0; k-- {
			f := forge{kind: c.W.Pick(4, 3, 3, 1, 1, 2, 6, 2, 2, 2, 1, 4, 3, 2, 2), a: c.W.N(16), b: c.W.N(16), how: c.W.N(16), delta: drawNZ(c), share: c.W.Chance(1, 2), r: c.W.N(1 << 16)}
			cases[i] = append(cases[i], f)
			if f.kind == 1 || f.kind == 2 || f.kind == 5 {
				// the same proof with more public inputs it was not made for
				for n := 1 + c.W.N(3); n > 0; n-- {
					g := forge{kind: []int{1, 2, 2, 2, 5}[c.W.N(5)], a: f.a, b: c.W.N(16), how: 1 + 2*c.W.N(8), delta: drawNZ(c), share: f.share, r: c.W.N(1 << 16)}
					cases[i] = append(cases[i], g)
				}
			}
		}
	}
	// one honest proof at the end
	cases[0] = append(cases[0], forge{share: true})
	x.Work(src + src2)
	for _, in := range inputs {
		x.Work(ints(in))
	}
	for _, l := range cases {
		for _, f := range l {
			x.Work(fmt.Sprint(f.kind, f.a, f.b, f.how, f.r, f.share) + f.delta.String())
		}
	}
	x.Sample("%sinputs %s; %d keys; cases of client 0: %v", src, ints(inputs[0]), keys, func() (l []string) {
		for _, f := range cases[0] {
			l = append(l, forgeNames[f.kind])
		}
		return
	}())
	unused := ""
	x.Sim(Opt{Budget: 2000000000, Busy: ncl > 1}, func() {
		w := simrt.Cur()
		w.Entropy.Seed(uint64(c.W.Salt()))
		z := compileZk(p, src)
		var ks []*zkkey
		var hs []*honestProof
		mk := func(z *zkprog, k *zkkey, in []*big.Int, sparse bool) bool {
			wit, err := z.witness(sparse, in)
			if err != nil {
				x.Fail("witness-refused", "witness-refused", "no witness for satisfying inputs %s: %v\n%s", ints(in), err, z.src)
				return false
			}
			proof, err := z.prove(sparse, k.pk, wit)
			if err != nil {
				x.Fail("proof-failed", "proof-failed", "no proof for satisfying inputs %s: %v\n%s", ints(in), err, z.src)
				return false
			}
			h := &honestProof{key: k, w: wit, pub: cloneInts(wit[:z.pub]), proof: proof, fp: proofFp(proof), wire: proofBytes(proof)}
			if k.s.x != nil {
				px, _ := z.sys.refPx(wit)
				h.e = k.honest(wit, pEval(px, k.s.x))
				h.accept = k.verdict(h.e, h.pub)
				if !bytes.Equal(g1fp(proof.PiA), g1Bytes(refBase(1, h.e.a))) || !bytes.Equal(g2fp(proof.PiB), g2Bytes(refBase(2, h.e.b))) || !bytes.Equal(g1fp(proof.PiC), g1Bytes(refBase(1, h.e.c))) || !bytes.Equal(g1fp(proof.PiF), g1Bytes(refBase(1, h.e.f))) {
					x.Fail("wrong-proof", "wrong-proof", "the proof is not the one that witness, key and scheme give\n%s %s", ints(wit), z.src)
					return false
				}
			} else {
				h.accept = z.expoConst(wit)
			}
			hs = append(hs, h)
			return true
		}
		k1, err := newKey(z, sparse[0])
		if err != nil {
			x.Fail("setup-failed", "setup-failed", "the setup failed: %v\n%s", err, src)
			return
		}
		ks = append(ks, k1)
		for i, in := range inputs {
			if !mk(z, k1, in, sparse[1+i]) {
				return
			}
		}
		if keys == 2 {
			z2, in := z, inputs[0]
			if p2 != nil {
				z2, in = compileZk(p2, src2), in2
			}
			k2, err := newKey(z2, sparse[3])
			if err != nil {
				x.Fail("setup-failed", "setup-failed", "the setup failed: %v\n%s", err, src2)
				return
			}
			ks = append(ks, k2)
			if !mk(z2, k2, in, sparse[0]) {
				return
			}
		}
		known := map[string]*big.Int{}
		learn := func(k *big.Int) {
			known[string(g1Bytes(refBase(1, k)))] = red(k)
			known[string(g2Bytes(refBase(2, k)))] = red(k)
		}
		if k1.s.x != nil {
			learn(bi(0))
			learn(bi(1))
			for _, h := range hs {
				if h.e != nil {
					for i := 0; i < 4; i++ {
						learn(*h.e.at(i))
						learn(fSub(bi(0), *h.e.at(i)))
					}
				}
			}
		}
		rejected, after := false, false
		var fs []func()
		for i := range cases {
			i := i
			fs = append(fs, func() {
				for _, f := range cases[i] {
					stall(1, 8)
					h := hs[f.a%len(hs)]
					if f.kind == 13 {
						c11Unsat(x, h, f)
						continue
					}
					pc := &c11case{x: x, f: f, h: h, key: h.key, pub: cloneInts(h.pub), proof: h.proof, e: h.e, known: known}
					if h.e != nil {
						pc.e = h.e.clone()
					}
					if f.share {
						pc.pub = h.pub
					}
					if !pc.build(hs, ks) {
						continue
					}
					kind := forgeNames[f.kind]
					at := func() string {
						return fmt.Sprintf("case %s %+v, public %s (made for %s), proof %s\n%s", kind, f, ints(pc.pub), ints(h.pub), h.fp, h.key.z.src)
					}
					held := cloneInts(pc.pub)
					fp := ""
					if pc.proof != nil && f.kind != 10 {
						fp = proofFp(pc.proof)
					}
					if f.kind < 6 && f.kind > 0 && f.how%2 == 0 {
						// it has just passed with the public inputs it was made for
						ok := false
						if _, pan := TryS(func() { ok = zkSNARK.VerifyProof(pc.key.pk, pc.proof, pc.h.pub, false) }); pan || ok != pc.h.accept {
							x.Fail("good-rejected", "good-rejected|again", "the verdict of an honest proof changed to %v\n%s", ok, at())
							return
						}
					}
					var got bool
					if txt, pan := TryS(func() { got = zkSNARK.VerifyProof(pc.key.pk, pc.proof, pc.pub, f.how%2 == 1) }); pan {
						x.Fail("verifier-panic", "verifier-panic|"+kind, "the verifier panicked instead of answering no: %s\n%s", txt, at())
						return
					}
					if !sameInts(held, pc.pub) || fp != "" && proofFp(pc.proof) != fp {
						x.Fail("changed", "changed|"+kind, "verifying changed the proof or the public inputs\n%s", at())
						return
					}
					switch {
					case pc.want < 0 && got:
						x.Fail("forgery-accepted", "forgery-accepted|"+kind, "a proof was accepted that must be rejected\n%s", at())
						return
					case pc.want > 0 && !got:
						x.Fail("good-rejected", "good-rejected|"+kind, "a valid proof was rejected (a forged one was rejected before: %v)\n%s", rejected, at())
						return
					case pc.want == 0 && got && (f.kind == 1 || f.kind == 2):
						unused = at()
					case pc.want == 0 && got:
						x.Probe("solves the equation: " + kind)
					}
					if got {
						after = after || rejected
					} else {
						rejected = true
					}
					if got {
						x.Probe(kind + ": accepted")
					} else {
						x.Probe(kind + ": rejected")
					}
				}
			})
		}
		for _, o := range Join(fs...) {
			if o.Panic != "" {
				x.Fail("client-panic", "client-panic", "a client got a panic: %s\n%s", o.Panic, src)
			}
		}
		if x.Failed() {
			return
		}
		for _, k := range ks {
			if pkDump(k.pk) != k.dump {
				x.Fail("changed", "changed|key", "verifying or proving changed the key\n%s", src)
			}
		}
		for _, h := range hs {
			if proofFp(h.proof) != h.fp || !sameInts(h.pub, h.w[:len(h.pub)]) {
				x.Fail("changed", "changed|proof", "verifying changed a proof or its public inputs\n%s", src)
			}
		}
		checkConstants(x)
		if after {
			x.Nontrivial()
		}
	})
	if unused != "" {
		// the scheme's own flaw, see DESIGN.md
		x.Fail("unused-public-accepted", "public input in no constraint", "a proof was accepted for another value of a public input that no constraint uses\n%s", unused)
	}
}

// c11Unsat proves with a witness that does not satisfy the constraints.
func c11Unsat(x *X, h *honestProof, f forge) {
	z := h.key.z
	w := cloneInts(h.w)
	k := f.b % len(w)
	w[k] = fAdd(w[k], f.delta)
	if f.how%3 == 0 {
		k = f.how % len(w)
		w[k] = fAdd(w[k], bi(1))
	}
	if z.sys.unsatisfied(w) < 0 {
		x.Probe("corrupted witness: still satisfying")
		return
	}
	var p *zkSNARK.Proof
	var err error
	_, pan := TryS(func() { p, err = z.prove(f.how%2 == 0, h.key.pk, w) })
	if !pan && (err == nil || p != nil) {
		x.Fail("false-proof", "false-proof", "a proof was produced for a witness that does not satisfy constraint %d: %s (sparse=%v)\n%s\n%s", z.sys.unsatisfied(w), ints(w), f.how%2 == 0, z.src, z.sys)
	}
	x.Probe("corrupted witness: no proof")
}

type c11case struct {
	x     *X
	f     forge
	h     *honestProof
	key   *zkkey
	pub   []*big.Int
	proof *zkSNARK.Proof
	e     *pexp // nil: not known
	known map[string]*big.Int
	want  int
}

// settle decides what the verdict must be.
func (p *c11case) settle(changed bool) bool {
	switch {
	case p.e != nil && p.key.s.x != nil:
		p.want = -1
		if p.key.verdict(p.e, p.pub) {
			p.want = 1
			if changed {
				p.want = 0
			}
		}
	case changed:
		p.want = -1
	case p.h.accept:
		p.want = 1
	default:
		p.want = -1
	}
	return true
}

// resplit moves the border between two numbers that are written one after another to another place.
func resplit(l []*big.Int, i, base, where int) bool {
	var a, b string
	switch base {
	case 256:
		a, b = string(l[i].Bytes()), string(l[i+1].Bytes())
	default:
		a, b = l[i].Text(base), l[i+1].Text(base)
	}
	s := a + b
	for k := 0; k < len(s); k++ {
		// near the old border first
		n := len(a) + (k/2+1)*(1-2*((k+where)%2))
		if n < 0 || n > len(s) || base != 256 && (n == 0 || n == len(s)) {
			continue
		}
		var u, v *big.Int
		if base == 256 {
			u, v = new(big.Int).SetBytes([]byte(s[:n])), new(big.Int).SetBytes([]byte(s[n:]))
			if string(u.Bytes())+string(v.Bytes()) != s {
				continue
			}
		} else {
			u, _ = new(big.Int).SetString(s[:n], base)
			v, _ = new(big.Int).SetString(s[n:], base)
			if u.Text(base)+v.Text(base) != s {
				continue
			}
		}
		if u.Cmp(refQ) >= 0 || v.Cmp(refQ) >= 0 {
			continue
		}
		l[i], l[i+1] = u, v
		return true
	}
	return false
}

// solved is the exponent of the third element that solves a wrong verification equation: one that
// compares up to a sign or leaves a term out.
func (p *c11case) solved() *big.Int {
	k, e := p.key, p.e
	ic := bi(0)
	for j, v := range p.pub {
		if v != nil && j < len(k.t) && (p.f.r%9 != 2 || j == 0) {
			ic = fAdd(ic, fMul(v, k.t[j]))
		}
	}
	beta, xf, ab, fb := k.s.beta, bi(0), fMul(k.s.alpha, k.s.beta), fMul(e.f, e.b)
	if e.f.Sign() != 0 {
		xf = red(refX(e.f))
	}
	neg := false
	switch p.f.r % 9 {
	case 1:
		xf = bi(0)
	case 3:
		ic = bi(0)
	case 4:
		ab = bi(0)
	case 5:
		fb = bi(0)
	case 6:
		beta = bi(0)
	case 7:
		xf = fSub(bi(0), xf)
	case 0, 8:
		neg = true
	}
	l := fAdd(fMul(e.a, fAdd(e.b, beta)), xf)
	if neg {
		l = fSub(bi(0), l)
	}
	return fMul(fSub(l, fAdd(fAdd(ab, ic), fb)), fInv(k.s.delta))
}

func (p *c11case) element(i, how int, hs []*honestProof) *big.Int {
	k := *p.e.at(i)
	switch how % 11 {
	case 0:
		return bi(0)
	case 1:
		return bi(1)
	case 2:
		return cp(p.f.delta)
	case 3:
		return fSub(bi(0), k)
	case 4:
		return fAdd(k, bi(1))
	case 5:
		return fAdd(k, k)
	case 6:
		return []*big.Int{p.key.s.alpha, p.key.s.beta, p.key.s.delta, p.key.s.gamma}[p.f.b%4]
	case 7:
		if o := hs[p.f.b%len(hs)]; o.e != nil {
			return cp(*o.e.at(i))
		}
	case 8:
		return cp(*p.e.at((i + 1 + p.f.b%3) % 4))
	case 9:
		return fMul(k, p.f.delta)
	}
	return fAdd(k, p.f.delta)
}

func (p *c11case) set(i int, k *big.Int) {
	c := *p.proof
	*p.e.at(i) = red(k)
	switch i {
	case 0:
		c.PiA = mkG1(k, p.f.how)
	case 1:
		c.PiB = mkG2(k, p.f.how)
	case 2:
		c.PiC = mkG1(k, p.f.how)
	case 3:
		c.PiF = mkG1(k, p.f.how)
	}
	p.proof = &c
}

func (p *c11case) build(hs []*honestProof, ks []*zkkey) bool {
	f, w := p.f, simrt.Cur()
	switch f.kind {
	case 0:
		if !f.share {
			p.proof = readProof(p.h.wire)
			if p.proof == nil {
				p.x.Fail("proof-refused", "proof-refused", "a proof that was serialised cannot be read any more: %x", p.h.wire)
				return false
			}
		}
		return p.settle(false)
	case 1, 2, 3, 4, 5:
		p.pub = cloneInts(p.pub)
		n := len(p.pub)
		switch f.kind {
		case 1:
			if n < 2 {
				return false
			}
			i := 1 + f.b%(n-1)
			d := f.delta
			switch f.r % 5 {
			case 0: // the same in the low words
				d = new(big.Int).Lsh(bi(int64(1+f.a)), []uint{32, 64, 128, 192}[f.r/5%4])
			case 1:
				d = bi(1)
			}
			p.pub[i] = fAdd(p.pub[i], d)
		case 2:
			if n < 3 {
				return false
			}
			i := 1 + f.b%(n-1)
			j := 1 + (f.b+1+f.how%(n-2))%(n-1)
			a, b := p.pub[i], p.pub[j]
			switch f.r % 8 {
			case 0, 1:
				p.pub[i], p.pub[j] = b, a
			case 2: // the same sum
				p.pub[i], p.pub[j] = fAdd(a, f.delta), fSub(b, f.delta)
			case 3: // the same parity of every bit
				m := bi(int64(1 + f.how))
				p.pub[i], p.pub[j] = new(big.Int).Xor(a, m), new(big.Int).Xor(b, m)
			default: // reads the same when one is written after the other
				if i = 1 + f.b%(n-2); !resplit(p.pub, i, []int{10, 16, 256, 10}[f.r/8%4], f.r/32) {
					return false
				}
			}
			if sameInts(p.pub, p.h.pub) {
				return false
			}
		case 3:
			if f.b%2 == 0 {
				p.pub = append(p.pub, []*big.Int{f.delta, bi(0), bi(1)}[f.how%3])
			} else {
				p.pub = p.pub[:f.how%n]
			}
		case 4:
			if p.pub[0] = fAdd(bi(1), f.delta); f.how%3 == 0 {
				p.pub[0] = bi(0)
			}
		case 5:
			i := f.b % n
			switch v := p.pub[i]; f.how % 4 {
			case 0:
				p.pub[i] = new(big.Int).Add(v, refQ)
			case 1:
				p.pub[i] = new(big.Int).Sub(v, refQ)
			case 2: // the same bits as v if only the low ones are looked at
				p.pub[i] = new(big.Int).Sub(v, new(big.Int).Lsh(bi(1), uint(v.BitLen()+f.a%2)))
			case 3:
				p.pub[i] = new(big.Int).Neg(v)
			}
			if p.pub[i].Cmp(p.h.pub[i]) == 0 {
				return false
			}
		}
		return p.settle(true)
	case 6, 14:
		if p.e == nil {
			return false
		}
		before := p.e.clone()
		i := f.a / 4 % 4
		p.set(i, p.element(i, f.how, hs))
		if f.kind == 14 {
			i = (i + 1 + f.b%3) % 4
			p.set(i, p.element(i, f.how/2+f.b, hs))
		}
		if f.r%4 == 0 && p.key.s.x != nil {
			p.set(2, p.solved())
		}
		ch := false
		for i := 0; i < 4; i++ {
			ch = ch || (*before.at(i)).Cmp(*p.e.at(i)) != 0
		}
		return p.settle(ch)
	case 7:
		if p.e == nil {
			return false
		}
		c := *p.proof
		switch f.b % 3 {
		case 0:
			c.PiA, c.PiC = c.PiC, c.PiA
			p.e.a, p.e.c = p.e.c, p.e.a
		case 1:
			c.PiA, c.PiF = c.PiF, c.PiA
			p.e.a, p.e.f = p.e.f, p.e.a
		case 2:
			c.PiF, c.PiC = c.PiC, c.PiF
			p.e.f, p.e.c = p.e.c, p.e.f
		}
		p.proof = &c
		return p.settle(true)
	case 8:
		o := hs[f.b%len(hs)]
		if o == p.h || sameInts(o.pub, p.h.pub) || o.e == nil || p.key.s.x == nil {
			return false
		}
		p.proof, p.e = o.proof, o.e
		return p.settle(true)
	case 9:
		p.key = ks[f.b%len(ks)]
		if p.key == p.h.key || p.e == nil || p.key.s.x == nil {
			return false
		}
		if n := p.key.z.pub; len(p.pub) > n {
			p.pub = p.pub[:n]
		} else {
			p.pub = cloneInts(p.pub)
			for len(p.pub) < n {
				p.pub = append(p.pub, bi(0))
			}
		}
		return p.settle(true)
	case 10:
		c := *p.proof
		switch f.b % 5 {
		case 0:
			c.PiA = nil
		case 1:
			c.PiB = nil
		case 2:
			c.PiC = nil
		case 3:
			c.PiF = nil
		}
		p.proof = &c
		if f.b%5 == 4 {
			p.proof = nil
		}
		p.want = -1
		return true
	case 11:
		b := append([]byte(nil), p.h.wire...)
		o := hs[f.b%len(hs)].wire
		off := []int{0, 64, 192, 256, 320}
		for k := 1 + f.how%2; k > 0; k-- {
			i := w.C.F.N(4)
			if w.C.F.Chance(1, 4) {
				copy(b[off[i]:off[i+1]], o[off[i]:off[i+1]])
				w.Fault("message-mixed")
				continue
			}
			g := 1
			if i == 1 {
				g = 2
			}
			n := mutateWire(w.C, g, append([]byte(nil), b[off[i]:off[i+1]]...), o[off[i]:off[i+1]])
			w.Fault("message-damaged")
			if len(n) != off[i+1]-off[i] {
				b = append(append(append([]byte(nil), b[:off[i]]...), n...), b[off[i+1]:]...)
				break
			}
			copy(b[off[i]:], n)
		}
		p.proof = readProof(b)
		if p.proof == nil {
			w.Probe("damaged message unreadable")
			return false
		}
		w.Probe("damaged message readable")
		if p.e != nil {
			for i := 0; i < 4 && p.e != nil; i++ {
				if k := p.known[string(b[off[i]:off[i+1]])]; k != nil {
					*p.e.at(i) = k
				} else {
					p.e = nil
				}
			}
		}
		return p.settle(!bytes.Equal(b, p.h.wire))
	case 12:
		// a prover that cheats: the witness and the polynomial do not belong together
		z := p.key.z
		if p.e == nil {
			return false
		}
		wit := cloneInts(p.h.w)
		i := f.b % len(wit)
		wit[i] = fAdd(wit[i], f.delta)
		if i == 0 {
			return false
		}
		px := bi(0)
		var err error
		_, pan := TryS(func() {
			switch f.how % 4 {
			case 0: // the zero polynomial
				p.proof, err = zkSNARK.GenerateProofs(z.pub, p.key.pk, wit, nil)
			case 1:
				p.proof, err = zkSNARK.GenerateProof_Sparse(z.pub, p.key.pk, wit, zkSNARK.CombineSparsePolynomials(p.h.w, z.ts))
			default:
				p.proof, err = zkSNARK.GenerateProofs(z.pub, p.key.pk, wit, zkSNARK.CombinePolynomials2(p.h.w, z.td))
			}
		})
		if pan || err != nil {
			return false
		}
		if f.how%4 != 0 {
			q, _ := z.sys.refPx(p.h.w)
			px = pEval(q, p.key.s.x)
		}
		p.e = p.key.honest(wit, px)
		if f.a%2 == 0 {
			p.pub = cloneInts(wit[:z.pub])
		} else {
			p.pub = cloneInts(p.h.pub)
		}
		return p.settle(true)
	}
	return false
}
