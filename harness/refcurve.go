package main

import (
	"encoding/hex"
	"math/big"
)

// An independent, slow statement of the three groups.

type fp2 struct{ a, b *big.Int } // a + b·i

func mp(v *big.Int) *big.Int { return new(big.Int).Mod(v, refP) }
func f2add(u, v fp2) fp2 {
	return fp2{mp(new(big.Int).Add(u.a, v.a)), mp(new(big.Int).Add(u.b, v.b))}
}
func f2sub(u, v fp2) fp2 {
	return fp2{mp(new(big.Int).Sub(u.a, v.a)), mp(new(big.Int).Sub(u.b, v.b))}
}
func f2mul(u, v fp2) fp2 {
	ac := new(big.Int).Mul(u.a, v.a)
	bd := new(big.Int).Mul(u.b, v.b)
	ad := new(big.Int).Mul(u.a, v.b)
	bc := new(big.Int).Mul(u.b, v.a)
	return fp2{mp(ac.Sub(ac, bd)), mp(ad.Add(ad, bc))}
}
func f2inv(u fp2) fp2 {
	n := new(big.Int).Mul(u.a, u.a)
	n.Add(n, new(big.Int).Mul(u.b, u.b))
	n.ModInverse(mp(n), refP)
	return fp2{mp(new(big.Int).Mul(u.a, n)), mp(new(big.Int).Mul(new(big.Int).Neg(u.b), n))}
}
func (u fp2) zero() bool    { return u.a.Sign() == 0 && u.b.Sign() == 0 }
func (u fp2) eq(v fp2) bool { return u.a.Cmp(v.a) == 0 && u.b.Cmp(v.b) == 0 }
func f2int(a, b int64) fp2  { return fp2{mp(bi(a)), mp(bi(b))} }
func dec(s string) *big.Int { v, _ := new(big.Int).SetString(s, 10); return v }

// ept is an affine point over F_p² (for the first group the i part is zero).
type ept struct {
	x, y fp2
	inf  bool
}

var refInf = ept{inf: true}
var refG1 = ept{x: f2int(1, 0), y: f2int(2, 0)}
var refG2 = ept{
	x: fp2{dec("10857046999023057135944570762232829481370756359578518086990519993285655852781"), dec("11559732032986387107991004021392285783925812861821192530917403151452391805634")},
	y: fp2{dec("8495653923123431417604973247489272438418190587263600148770280649306958101930"), dec("4082367875863433681332203403145435568316851327593401208105741076214120093531")},
}
var refB1 = f2int(3, 0)
var refB2 = f2mul(f2int(3, 0), f2inv(f2int(9, 1)))

func (p ept) eq(q ept) bool {
	if p.inf || q.inf {
		return p.inf == q.inf
	}
	return p.x.eq(q.x) && p.y.eq(q.y)
}
func eNeg(p ept) ept {
	if p.inf {
		return p
	}
	return ept{x: p.x, y: f2sub(f2int(0, 0), p.y)}
}
func eAdd(p, q ept) ept {
	if p.inf {
		return q
	}
	if q.inf {
		return p
	}
	var l fp2
	if p.x.eq(q.x) {
		if !p.y.eq(q.y) || p.y.zero() {
			return refInf
		}
		l = f2mul(f2mul(f2int(3, 0), f2mul(p.x, p.x)), f2inv(f2add(p.y, p.y)))
	} else {
		l = f2mul(f2sub(q.y, p.y), f2inv(f2sub(q.x, p.x)))
	}
	x := f2sub(f2sub(f2mul(l, l), p.x), q.x)
	return ept{x: x, y: f2sub(f2mul(l, f2sub(p.x, x)), p.y)}
}
func eMul(p ept, k *big.Int) ept {
	r := refInf
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = eAdd(r, r)
		if k.Bit(i) != 0 {
			r = eAdd(r, p)
		}
	}
	return r
}
func onCurve(p ept, b fp2) bool {
	return p.inf || f2mul(p.y, p.y).eq(f2add(f2mul(p.x, f2mul(p.x, p.x)), b))
}
func put32(dst []byte, v *big.Int) []byte {
	return append(dst, v.FillBytes(make([]byte, 32))...)
}
func g1Bytes(p ept) (b []byte) {
	if p.inf {
		return make([]byte, 64)
	}
	return put32(put32(nil, p.x.a), p.y.a)
}
func g2Bytes(p ept) (b []byte) {
	if p.inf {
		return make([]byte, 128)
	}
	for _, v := range []*big.Int{p.x.b, p.x.a, p.y.b, p.y.a} {
		b = put32(b, v)
	}
	return
}

// g1Parse and g2Parse tell which bytes are an element, and which.
func g1Parse(m []byte) (ept, bool) {
	if len(m) != 64 {
		return ept{}, false
	}
	x, y := new(big.Int).SetBytes(m[:32]), new(big.Int).SetBytes(m[32:])
	if x.Cmp(refP) >= 0 || y.Cmp(refP) >= 0 {
		return ept{}, false
	}
	if x.Sign() == 0 && y.Sign() == 0 {
		return refInf, true
	}
	p := ept{x: fp2{x, bi(0)}, y: fp2{y, bi(0)}}
	return p, onCurve(p, refB1)
}
func g2Parse(m []byte) (ept, bool) {
	if len(m) != 128 {
		return ept{}, false
	}
	var v [4]*big.Int
	z := true
	for i := range v {
		v[i] = new(big.Int).SetBytes(m[32*i : 32*i+32])
		if v[i].Cmp(refP) >= 0 {
			return ept{}, false
		}
		z = z && v[i].Sign() == 0
	}
	if z {
		return refInf, true
	}
	p := ept{x: fp2{v[1], v[0]}, y: fp2{v[3], v[2]}}
	return p, onCurve(p, refB2) && eMul(p, refQ).inf
}

// ft is an element of F_p¹² = F_p²[w]/(w⁶-9-i), coefficients of w⁰..w⁵.
type ft [6]fp2

func ftMul(u, v ft) (r ft) {
	var t [11]fp2
	for i := range t {
		t[i] = f2int(0, 0)
	}
	for i := range u {
		if u[i].zero() {
			continue
		}
		for j := range v {
			t[i+j] = f2add(t[i+j], f2mul(u[i], v[j]))
		}
	}
	xi := f2int(9, 1)
	for i := range r {
		r[i] = t[i]
		if i+6 < 11 {
			r[i] = f2add(r[i], f2mul(xi, t[i+6]))
		}
	}
	return
}
func ftOne() (r ft) {
	for i := range r {
		r[i] = f2int(0, 0)
	}
	r[0] = f2int(1, 0)
	return
}
func ftExp(u ft, k *big.Int) ft {
	r := ftOne()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = ftMul(r, r)
		if k.Bit(i) != 0 {
			r = ftMul(r, u)
		}
	}
	return r
}

// the serialisation lists the coefficients of w in this order, i part first
var ftOrder = [6]int{5, 3, 1, 4, 2, 0}

func ftBytes(u ft) (b []byte) {
	for _, k := range ftOrder {
		b = put32(put32(b, u[k].b), u[k].a)
	}
	return
}
func ftParse(m []byte) (u ft, ok bool) {
	if len(m) != 384 {
		return
	}
	ok = true
	for i, k := range ftOrder {
		u[k] = fp2{b: new(big.Int).SetBytes(m[64*i : 64*i+32]), a: new(big.Int).SetBytes(m[64*i+32 : 64*i+64])}
		ok = ok && u[k].a.Cmp(refP) < 0 && u[k].b.Cmp(refP) < 0
	}
	return
}

// refE is the pairing of the two generators.
var refE = func() ft {
	b, _ := hex.DecodeString(refEHex)
	u, ok := ftParse(b)
	if !ok {
		panic("refE")
	}
	return u
}()

// refEPow caches the squarings of refE.
var refEPow []ft
var refESmall = map[int64]ft{}

func refEExp(k *big.Int) ft {
	k = red(k)
	small := k.IsInt64() && k.Int64() < 4096
	if small {
		if r, ok := refESmall[k.Int64()]; ok {
			return r
		}
	}
	r := ftOne()
	if small {
		defer func() { refESmall[k.Int64()] = r }()
	}
	for i := 0; i < k.BitLen(); i++ {
		if i == len(refEPow) {
			if i == 0 {
				refEPow = append(refEPow, refE)
			} else {
				refEPow = append(refEPow, ftMul(refEPow[i-1], refEPow[i-1]))
			}
		}
		if k.Bit(i) != 0 {
			r = ftMul(r, refEPow[i])
		}
	}
	return r
}

var refBasePow [2][]ept

// refBase is k times the generator of group g (1 or 2).
func refBase(g int, k *big.Int) ept {
	k = red(k)
	c := &refBasePow[g-1]
	r := refInf
	for i := 0; i < k.BitLen(); i++ {
		if i == len(*c) {
			if i == 0 {
				*c = append(*c, []ept{refG1, refG2}[g-1])
			} else {
				*c = append(*c, eAdd((*c)[i-1], (*c)[i-1]))
			}
		}
		if k.Bit(i) != 0 {
			r = eAdd(r, (*c)[i])
		}
	}
	return r
}
