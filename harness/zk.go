package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"unsafe"

	cc "github.com/mottla/go-AlgebraicProgram-SNARK/circuitcompiler"
	bn256 "github.com/mottla/go-AlgebraicProgram-SNARK/pairing"
	"github.com/mottla/go-AlgebraicProgram-SNARK/zkSNARK"
)

// zkprog is what the parties of the proof system agree on: a compiled program.
type zkprog struct {
	p   *program
	src string
	a   *art
	sys *csys
	td  *cc.ER1CSTransposed
	ts  *cc.ER1CSsPARSETransposed
	pub int // columns of the public part, the constant one included
}

// drawZk draws a program that can be proved: at least one gate, at most max
// gates, and at least one column that is not public (the library refuses others).
// The text is compiled in a simulated process of its own to learn its size.
func drawZk(x *X, max int, cfg langCfg) (*program, string) {
	p := genProgram(x.C, cfg)
	src := p.text()
	ok := false
	x.Sim(Opt{NoPreempt: true}, func() {
		_, bad := TryS(func() {
			a := compileArt(src, 1)
			ok = a.dense.NumberOfGates > 0 && a.dense.NumberOfGates <= max && a.dense.WitnessLength <= 3*max && a.prog.GlobalInputCount() < a.dense.WitnessLength
		})
		ok = ok && !bad
	})
	if !ok {
		return nil, ""
	}
	return p, src
}

func compileZk(p *program, src string) *zkprog {
	z := &zkprog{p: p, src: src, a: compileArt(src, 3)}
	z.sys = csysDense(z.a.prog, z.a.dense)
	z.td, z.ts = z.a.dense.Transpose(), z.a.sparse.TransposeSparse()
	z.pub = z.a.prog.GlobalInputCount()
	return z
}

func (z *zkprog) setup(sparse bool) (*zkSNARK.Setup, error) {
	if sparse {
		return zkSNARK.GenerateTrustedSetupSparse(z.pub, z.ts)
	}
	return zkSNARK.GenerateTrustedSetup(z.pub, z.td)
}

func (z *zkprog) witness(sparse bool, inputs []*big.Int) ([]*big.Int, error) {
	return z.a.witnessOf(sparse, z.p.inputs, inputs)
}

func (z *zkprog) prove(sparse bool, pk *zkSNARK.Pk, w []*big.Int) (*zkSNARK.Proof, error) {
	if sparse {
		return zkSNARK.GenerateProof_Sparse(z.pub, pk, w, zkSNARK.CombineSparsePolynomials(w, z.ts))
	}
	return zkSNARK.GenerateProofs(z.pub, pk, w, zkSNARK.CombinePolynomials2(w, z.td))
}

// fingerprint of elements that does not ask the element itself to be serialised,
// which might normalise it in place.
func g1fp(e *bn256.G1) []byte {
	if e == nil {
		return []byte("nil")
	}
	return new(bn256.G1).Add(e, new(bn256.G1).ScalarBaseMult(bi(0))).Marshal()
}
func g2fp(e *bn256.G2) []byte {
	if e == nil {
		return []byte("nil")
	}
	return new(bn256.G2).Add(e, new(bn256.G2).ScalarBaseMult(bi(0))).Marshal()
}

// pkField reaches an unexported element of the key, nil if there is none of that name.
func pkField(pk *zkSNARK.Pk, name string) *bn256.GT {
	f := reflect.ValueOf(pk).Elem().FieldByName(name)
	if !f.IsValid() || f.Type() != reflect.TypeOf((*bn256.GT)(nil)) {
		return nil
	}
	return *(**bn256.GT)(unsafe.Pointer(f.UnsafeAddr()))
}

// pkDump serialises a proving key (every element is copied first).
func pkDump(pk *zkSNARK.Pk) string {
	var b bytes.Buffer
	l1 := func(n string, l ...*bn256.G1) {
		for i, e := range l {
			fmt.Fprintf(&b, "%s %d %x\n", n, i, g1fp(e))
		}
	}
	l2 := func(n string, l ...*bn256.G2) {
		for i, e := range l {
			fmt.Fprintf(&b, "%s %d %x\n", n, i, g2fp(e))
		}
	}
	fmt.Fprintf(&b, "Domain %s\n", ints(pk.Domain))
	l1("RLEO_Delta", pk.G1.RLEO_Delta...)
	l1("Alpha", pk.G1.Alpha)
	l1("Beta", pk.G1.Beta)
	l1("Delta", pk.G1.Delta)
	l1("RLEO_Gamma", pk.G1.RLEO_Gamma...)
	l1("PowersX", pk.G1.PowersX...)
	l1("PowersX_Domain_Delta", pk.G1.PowersX_Domain_Delta...)
	l1("Lx_plus_Ex", pk.G1.Lx_plus_Ex...)
	l1("Ex", pk.G1.Ex...)
	l2("Beta2", pk.G2.Beta)
	l2("Gamma2", pk.G2.Gamma)
	l2("Delta2", pk.G2.Delta)
	l2("PowersX2", pk.G2.PowersX...)
	l2("Rx", pk.G2.Rx...)
	for _, n := range []string{"eGH", "eGHalphaBeta"} {
		if t := pkField(pk, n); t != nil {
			fmt.Fprintf(&b, "%s %x\n", n, new(bn256.GT).Add(t, bn256.OneGT()).Marshal())
		}
	}
	return b.String()
}

// secrets of a setup, as far as they are known.
type secrets struct{ x, alpha, beta, gamma, delta *big.Int }

// judgePk compares a key with the one the secrets give, element by element.
func judgePk(x *X, z *zkprog, pk *zkSNARK.Pk, s secrets, at string) bool {
	n := z.sys.gates
	bad := func(what string, i int) bool {
		x.Fail("wrong-key", "wrong-key|"+what, "%s %d of the key is not what the secrets and the program give\n%s\n%s", what, i, at, z.src)
		return false
	}
	dom := poly{0: bi(1)}
	for i := 0; i < n; i++ {
		dom = pMul(dom, poly{1: bi(1), 0: red(bi(int64(-i)))})
	}
	if i := 0; !pEq(pFromSlice(pk.Domain), dom) {
		return bad("domain", i)
	}
	if len(pk.G1.PowersX) != n || len(pk.G2.PowersX) != n || len(pk.G1.PowersX_Domain_Delta) != n || len(pk.G1.Lx_plus_Ex) != z.sys.width || len(pk.G1.Ex) != z.sys.width || len(pk.G2.Rx) != z.sys.width || len(pk.G1.RLEO_Gamma) != z.pub || len(pk.G1.RLEO_Delta) != z.sys.width-z.pub {
		return bad("number of elements", 0)
	}
	ok1 := func(what string, i int, e *bn256.G1, k *big.Int) bool {
		return e != nil && bytes.Equal(g1fp(e), g1Bytes(refBase(1, k))) || bad(what, i)
	}
	ok2 := func(what string, i int, e *bn256.G2, k *big.Int) bool {
		return e != nil && bytes.Equal(g2fp(e), g2Bytes(refBase(2, k))) || bad(what, i)
	}
	if !ok1("G1.Alpha", 0, pk.G1.Alpha, s.alpha) || !ok1("G1.Beta", 0, pk.G1.Beta, s.beta) || !ok1("G1.Delta", 0, pk.G1.Delta, s.delta) ||
		!ok2("G2.Beta", 0, pk.G2.Beta, s.beta) || !ok2("G2.Gamma", 0, pk.G2.Gamma, s.gamma) || !ok2("G2.Delta", 0, pk.G2.Delta, s.delta) {
		return false
	}
	dd := fMul(pEval(dom, s.x), fInv(s.delta))
	pw := bi(1)
	for i := 0; i < n; i++ {
		if !ok1("G1.PowersX", i, pk.G1.PowersX[i], pw) || !ok2("G2.PowersX", i, pk.G2.PowersX[i], pw) || !ok1("G1.PowersX_Domain_Delta", i, pk.G1.PowersX_Domain_Delta[i], fMul(pw, dd)) {
			return false
		}
		pw = fMul(pw, s.x)
	}
	for j := 0; j < z.sys.width; j++ {
		var v [4]*big.Int
		for k := range v {
			col := make([]*big.Int, n)
			for i := range col {
				col[i] = bi(0)
				if u := z.sys.rows[k][i][j]; u != nil {
					col[i] = u
				}
			}
			v[k] = pEval(refInterp(col), s.x)
		}
		t := fAdd(fAdd(fMul(s.alpha, v[1]), fMul(s.beta, fAdd(v[0], v[2]))), v[3])
		if !ok1("G1.Ex", j, pk.G1.Ex[j], v[2]) || !ok1("G1.Lx_plus_Ex", j, pk.G1.Lx_plus_Ex[j], fAdd(v[0], v[2])) || !ok2("G2.Rx", j, pk.G2.Rx[j], v[1]) {
			return false
		}
		if j < z.pub {
			if !ok1("G1.RLEO_Gamma", j, pk.G1.RLEO_Gamma[j], fMul(t, fInv(s.gamma))) {
				return false
			}
		} else if !ok1("G1.RLEO_Delta", j, pk.G1.RLEO_Delta[j-z.pub], fMul(t, fInv(s.delta))) {
			return false
		}
	}
	for _, g := range []struct {
		n string
		k *big.Int
	}{{"eGH", bi(1)}, {"eGHalphaBeta", fMul(s.alpha, s.beta)}} {
		if t := pkField(pk, g.n); t != nil && !bytes.Equal(new(bn256.GT).Add(t, bn256.OneGT()).Marshal(), ftBytes(refEExp(g.k))) {
			return bad(g.n, 0)
		}
	}
	return true
}

// proofBytes is how a proof travels.
func proofBytes(p *zkSNARK.Proof) []byte {
	var b []byte
	b = append(b, p.PiA.Marshal()...)
	b = append(b, p.PiB.Marshal()...)
	b = append(b, p.PiC.Marshal()...)
	return append(b, p.PiF.Marshal()...)
}

// proofFp serialises copies of the elements.
func proofFp(p *zkSNARK.Proof) string {
	return fmt.Sprintf("%x %x %x %x", g1fp(p.PiA), g2fp(p.PiB), g1fp(p.PiC), g1fp(p.PiF))
}

// readProof is nil if a part is refused.
func readProof(b []byte) *zkSNARK.Proof {
	p := &zkSNARK.Proof{PiA: new(bn256.G1), PiB: new(bn256.G2), PiC: new(bn256.G1), PiF: new(bn256.G1)}
	at := 0
	take := func(n int) []byte {
		if at+n > len(b) {
			n = len(b) - at
		}
		at += n
		return b[at-n : at]
	}
	if _, err := p.PiA.Unmarshal(take(64)); err != nil {
		return nil
	}
	if _, err := p.PiB.Unmarshal(take(128)); err != nil {
		return nil
	}
	if _, err := p.PiC.Unmarshal(take(64)); err != nil {
		return nil
	}
	if _, err := p.PiF.Unmarshal(take(64)); err != nil {
		return nil
	}
	if at != len(b) {
		return nil
	}
	return p
}

// pkWrite serialises a key for the disk or the wire, nil if it has parts that cannot be reached.
func pkWrite(pk *zkSNARK.Pk) []byte {
	gh, ghab := pkField(pk, "eGH"), pkField(pk, "eGHalphaBeta")
	if gh == nil || ghab == nil {
		return nil
	}
	var b []byte
	num := func(n int) { b = append(b, byte(n>>8), byte(n)) }
	num(len(pk.Domain))
	for _, v := range pk.Domain {
		b = put32(b, v)
	}
	for _, l := range [][]*bn256.G1{pk.G1.RLEO_Delta, {pk.G1.Alpha}, {pk.G1.Beta}, {pk.G1.Delta}, pk.G1.RLEO_Gamma, pk.G1.PowersX, pk.G1.PowersX_Domain_Delta, pk.G1.Lx_plus_Ex, pk.G1.Ex} {
		num(len(l))
		for _, e := range l {
			b = append(b, e.Marshal()...)
		}
	}
	for _, l := range [][]*bn256.G2{{pk.G2.Beta}, {pk.G2.Gamma}, {pk.G2.Delta}, pk.G2.PowersX, pk.G2.Rx} {
		num(len(l))
		for _, e := range l {
			b = append(b, e.Marshal()...)
		}
	}
	b = append(b, gh.Marshal()...)
	return append(b, ghab.Marshal()...)
}

// pkRead is nil for bytes that are no complete key.
func pkRead(b []byte) (pk *zkSNARK.Pk) {
	bad := false
	take := func(n int) []byte {
		if n > len(b) {
			bad = true
			return nil
		}
		r := b[:n]
		b = b[n:]
		return r
	}
	num := func() int {
		if r := take(2); r != nil {
			return int(r[0])<<8 | int(r[1])
		}
		return 0
	}
	pk = new(zkSNARK.Pk)
	for n := num(); n > 0 && !bad; n-- {
		pk.Domain = append(pk.Domain, new(big.Int).SetBytes(take(32)))
	}
	l1 := func() (l []*bn256.G1) {
		for n := num(); n > 0 && !bad; n-- {
			e := new(bn256.G1)
			if r := take(64); bad {
			} else if _, err := e.Unmarshal(r); err != nil {
				bad = true
			}
			l = append(l, e)
		}
		return
	}
	l2 := func() (l []*bn256.G2) {
		for n := num(); n > 0 && !bad; n-- {
			e := new(bn256.G2)
			if r := take(128); bad {
			} else if _, err := e.Unmarshal(r); err != nil {
				bad = true
			}
			l = append(l, e)
		}
		return
	}
	one1 := func() *bn256.G1 {
		if l := l1(); len(l) == 1 {
			return l[0]
		}
		bad = true
		return nil
	}
	one2 := func() *bn256.G2 {
		if l := l2(); len(l) == 1 {
			return l[0]
		}
		bad = true
		return nil
	}
	pk.G1.RLEO_Delta = l1()
	pk.G1.Alpha, pk.G1.Beta, pk.G1.Delta = one1(), one1(), one1()
	pk.G1.RLEO_Gamma, pk.G1.PowersX, pk.G1.PowersX_Domain_Delta, pk.G1.Lx_plus_Ex, pk.G1.Ex = l1(), l1(), l1(), l1(), l1()
	pk.G2.Beta, pk.G2.Gamma, pk.G2.Delta = one2(), one2(), one2()
	pk.G2.PowersX, pk.G2.Rx = l2(), l2()
	for _, n := range []string{"eGH", "eGHalphaBeta"} {
		e := new(bn256.GT)
		if r := take(384); bad {
		} else if _, ok := e.Unmarshal(r); !ok {
			bad = true
		}
		f := reflect.ValueOf(pk).Elem().FieldByName(n)
		*(**bn256.GT)(unsafe.Pointer(f.UnsafeAddr())) = e
	}
	if bad || len(b) > 0 {
		return nil
	}
	return pk
}

// expoConst tells whether the exponents of all gates are equal under the witness.
func (z *zkprog) expoConst(w []*big.Int) bool {
	for i := 1; i < z.sys.gates; i++ {
		if z.sys.dot(2, i, w).Cmp(z.sys.dot(2, 0, w)) != 0 {
			return false
		}
	}
	return true
}
