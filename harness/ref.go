package main

import (
	"fmt"
	"math/big"
	"sort"

	"github.com/mottla/go-AlgebraicProgram-SNARK/zzverif/simrt"
)

// The order of the groups, written out here so that the library cannot change it.
var refQ, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

// the prime of the curve's coordinates
var refP, _ = new(big.Int).SetString("21888242871839275222246405745257275088696311157297823662689037894645226208583", 10)

func bi(v int64) *big.Int     { return big.NewInt(v) }
func cp(v *big.Int) *big.Int  { return new(big.Int).Set(v) }
func red(v *big.Int) *big.Int { return new(big.Int).Mod(v, refQ) }
func fAdd(a, b *big.Int) *big.Int {
	return red(new(big.Int).Add(a, b))
}
func fSub(a, b *big.Int) *big.Int { return red(new(big.Int).Sub(a, b)) }
func fMul(a, b *big.Int) *big.Int { return red(new(big.Int).Mul(a, b)) }
func fInv(a *big.Int) *big.Int {
	a = red(a)
	if a.Sign() == 0 {
		return bi(0)
	}
	return new(big.Int).ModInverse(a, refQ)
}

// drawField draws a canonical field element; simplest is 0.
func drawField(c *simrt.Choices) *big.Int {
	switch c.W.Pick(2, 10, 2, 4, 1) {
	case 0:
		return bi(0)
	case 1:
		return bi(int64(1 + c.W.N(20)))
	case 2:
		return new(big.Int).Sub(refQ, bi(int64(1+c.W.N(3))))
	case 4:
		return drawRim(c)
	}
	v := bi(c.W.Salt())
	for i := 0; i < 8; i++ {
		v.Lsh(v, 31)
		v.Add(v, bi(c.W.Salt()))
	}
	return red(v)
}

// drawRim draws a value that just fits or just does not fit into a machine word or a number of bytes.
func drawRim(c *simrt.Choices) *big.Int {
	k := []uint{8, 16, 31, 32, 53, 63, 63, 64, 64, 127, 128, 252, 253}[c.W.N(13)]
	v := new(big.Int).Lsh(bi(1), k)
	return red(v.Add(v, bi(int64(c.W.N(5)-2))))
}

func drawNZ(c *simrt.Choices) *big.Int {
	v := drawField(c)
	if v.Sign() == 0 {
		return bi(1)
	}
	return v
}

// drawWild may also be negative or not reduced.
func drawWild(c *simrt.Choices) *big.Int {
	v := drawField(c)
	switch c.W.Pick(6, 1, 1, 1) {
	case 1:
		return new(big.Int).Neg(v)
	case 2:
		return new(big.Int).Add(v, refQ)
	case 3:
		return cp(refQ)
	}
	return v
}

// poly is the reference polynomial: exponent -> non-zero canonical coefficient.
type poly map[uint]*big.Int

func (p poly) add(k uint, v *big.Int) {
	s := red(v)
	if o, ok := p[k]; ok {
		s = fAdd(o, s)
	}
	if s.Sign() == 0 {
		delete(p, k)
	} else {
		p[k] = s
	}
}
func (p poly) clone() poly {
	r := poly{}
	for k, v := range p {
		r[k] = v
	}
	return r
}
func (p poly) keys() []uint {
	l := make([]uint, 0, len(p))
	for k := range p {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}
func (p poly) deg() uint {
	var m uint
	for k := range p {
		if k > m {
			m = k
		}
	}
	return m
}
func pAdd(a, b poly) poly {
	r := a.clone()
	for k, v := range b {
		r.add(k, v)
	}
	return r
}
func pScale(a poly, s *big.Int) poly {
	r := poly{}
	for k, v := range a {
		r.add(k, fMul(v, s))
	}
	return r
}
func pSub(a, b poly) poly { return pAdd(a, pScale(b, bi(-1))) }
func pMul(a, b poly) poly {
	r := poly{}
	for k, v := range a {
		for l, u := range b {
			r.add(k+l, fMul(v, u))
		}
	}
	return r
}
func pEval(a poly, x *big.Int) *big.Int {
	r := bi(0)
	for k, v := range a {
		e := new(big.Int).Exp(red(x), new(big.Int).SetUint64(uint64(k)), refQ)
		r = fAdd(r, fMul(v, e))
	}
	return r
}
func pDiv(a, b poly) (q, r poly) {
	q, r = poly{}, a.clone()
	d := b.deg()
	li := fInv(b[d])
	for len(r) > 0 && r.deg() >= d {
		k := r.deg() - d
		c := fMul(r[r.deg()], li)
		q.add(k, c)
		r = pSub(r, pMul(b, poly{k: c}))
	}
	return
}
func pFromSlice(a []*big.Int) poly {
	r := poly{}
	for i, v := range a {
		r.add(uint(i), v)
	}
	return r
}
func (p poly) String() string {
	s := "{"
	for _, k := range p.keys() {
		s += fmt.Sprintf("%d:%v ", k, p[k])
	}
	return s + "}"
}
func pEq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		u, ok := b[k]
		if !ok || u.Cmp(v) != 0 {
			return false
		}
	}
	return true
}

// pInterp is the polynomial of degree < n through (i, data[i]), missing data being 0.
func pInterp(data poly, n int) poly {
	// divided differences (Newton), then the nested form expanded
	c := make([]*big.Int, n)
	for i := range c {
		c[i] = bi(0)
		if v, ok := data[uint(i)]; ok {
			c[i] = v
		}
	}
	for d := 1; d < n; d++ {
		inv := fInv(bi(int64(d)))
		for i := n - 1; i >= d; i-- {
			c[i] = fMul(fSub(c[i], c[i-1]), inv)
		}
	}
	r := make([]*big.Int, 0, n)
	for i := n - 1; i >= 0; i-- { // r = r*(x-i) + c[i]
		r = append(r, bi(0))
		for k := len(r) - 1; k > 0; k-- {
			r[k] = fSub(r[k-1], fMul(r[k], bi(int64(i))))
		}
		r[0] = fSub(c[i], fMul(r[0], bi(int64(i))))
	}
	return pFromSlice(r)
}
