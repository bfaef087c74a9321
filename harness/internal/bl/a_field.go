// Package bl is a reference for BLS12-381: fields, the two curves, RFC 9380 hashing and the pairing by definition.
package bl

import (
	"math/big"
	"math/bits"
)

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

// The prime of the field and the order of the groups.
var (
	P = hx("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab")
	R = hx("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001")
)

// Fp is a reduced number in Montgomery form.
type Fp [6]uint64

var (
	pw   = words(P)
	pinv uint64
	rr   Fp
	fp1  Fp
	half = new(big.Int).Rsh(P, 1)
	pm2  = new(big.Int).Sub(P, big.NewInt(2))
	psq  = new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
)

func init() {
	pinv = 1
	for i := 0; i < 6; i++ {
		pinv *= 2 - pw[0]*pinv
	}
	pinv = -pinv
	t := new(big.Int).Lsh(big.NewInt(1), 768)
	rr = words(t.Mod(t, P))
	fp1 = FpInt(big.NewInt(1))
}

func words(v *big.Int) (o Fp) {
	b := v.FillBytes(make([]byte, 48))
	for i := range o {
		for j := 0; j < 8; j++ {
			o[i] |= uint64(b[47-8*i-j]) << (8 * j)
		}
	}
	return
}

// FpInt is the element of a number (reduced first).
func FpInt(v *big.Int) Fp { return words(new(big.Int).Mod(v, P)).Mul(rr) }

// Int is the number.
func (a Fp) Int() *big.Int {
	a = a.Mul(Fp{1})
	v := new(big.Int)
	for i := 5; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(a[i]))
	}
	return v
}

// Bytes is the 48 byte big-endian form.
func (a Fp) Bytes() []byte { return a.Int().FillBytes(make([]byte, 48)) }

func subP(a Fp, carry uint64) Fp {
	var t Fp
	var b uint64
	for i := range a {
		t[i], b = bits.Sub64(a[i], pw[i], b)
	}
	if carry == 0 && b == 1 {
		return a
	}
	return t
}

func (a Fp) Add(b Fp) Fp {
	var c uint64
	for i := range a {
		a[i], c = bits.Add64(a[i], b[i], c)
	}
	return subP(a, c)
}

func (a Fp) Sub(b Fp) Fp {
	var c uint64
	for i := range a {
		a[i], c = bits.Sub64(a[i], b[i], c)
	}
	if c == 1 {
		c = 0
		for i := range a {
			a[i], c = bits.Add64(a[i], pw[i], c)
		}
	}
	return a
}

func (a Fp) Neg() Fp { return Fp{}.Sub(a) }

func (a Fp) Mul(b Fp) Fp {
	var t [8]uint64
	for i := 0; i < 6; i++ {
		var c, h, l, k uint64
		for j := 0; j < 6; j++ {
			h, l = bits.Mul64(a[j], b[i])
			l, k = bits.Add64(l, t[j], 0)
			h += k
			t[j], k = bits.Add64(l, c, 0)
			c = h + k
		}
		t[6], k = bits.Add64(t[6], c, 0)
		t[7] = k
		m := t[0] * pinv
		h, l = bits.Mul64(m, pw[0])
		_, k = bits.Add64(l, t[0], 0)
		c = h + k
		for j := 1; j < 6; j++ {
			h, l = bits.Mul64(m, pw[j])
			l, k = bits.Add64(l, t[j], 0)
			h += k
			t[j-1], k = bits.Add64(l, c, 0)
			c = h + k
		}
		t[5], k = bits.Add64(t[6], c, 0)
		t[6] = t[7] + k
		t[7] = 0
	}
	return subP(Fp{t[0], t[1], t[2], t[3], t[4], t[5]}, t[6])
}

func (a Fp) Exp(e *big.Int) Fp {
	r := fp1
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if e.Bit(i) == 1 {
			r = r.Mul(a)
		}
	}
	return r
}

// Inv is zero for zero.
func (a Fp) Inv() Fp { return a.Exp(pm2) }

func (a Fp) IsZero() bool { return a == Fp{} }

func (a Fp) One() Fp { return fp1 }

// Sqrt returns a root, if there is one.
func (a Fp) Sqrt() (Fp, bool) {
	r := a.Exp(psq)
	return r, r.Mul(r) == a
}

// Large reports a number above (p-1)/2.
func (a Fp) Large() bool { return a.Int().Cmp(half) > 0 }

// Sgn0 is the parity.
func (a Fp) Sgn0() uint { return a.Int().Bit(0) }

// Fp2 is A + Bu with u^2 = -1.
type Fp2 struct{ A, B Fp }

func (a Fp2) Add(b Fp2) Fp2 { return Fp2{a.A.Add(b.A), a.B.Add(b.B)} }
func (a Fp2) Sub(b Fp2) Fp2 { return Fp2{a.A.Sub(b.A), a.B.Sub(b.B)} }
func (a Fp2) Neg() Fp2      { return Fp2{a.A.Neg(), a.B.Neg()} }
func (a Fp2) Mul(b Fp2) Fp2 {
	return Fp2{a.A.Mul(b.A).Sub(a.B.Mul(b.B)), a.A.Mul(b.B).Add(a.B.Mul(b.A))}
}
func (a Fp2) Norm() Fp { return a.A.Mul(a.A).Add(a.B.Mul(a.B)) }
func (a Fp2) Inv() Fp2 {
	n := a.Norm().Inv()
	return Fp2{a.A.Mul(n), a.B.Neg().Mul(n)}
}
func (a Fp2) IsZero() bool { return a == Fp2{} }
func (a Fp2) One() Fp2     { return Fp2{A: fp1} }

// Sqrt returns a root, if there is one.
func (a Fp2) Sqrt() (Fp2, bool) {
	if a.B.IsZero() {
		if r, ok := a.A.Sqrt(); ok {
			return Fp2{A: r}, true
		}
		r, ok := a.A.Neg().Sqrt()
		return Fp2{B: r}, ok
	}
	n, ok := a.Norm().Sqrt()
	if !ok {
		return Fp2{}, false
	}
	h := FpInt(big.NewInt(2)).Inv()
	x, ok := a.A.Add(n).Mul(h).Sqrt()
	if !ok {
		x, ok = a.A.Sub(n).Mul(h).Sqrt()
		if !ok {
			return Fp2{}, false
		}
	}
	r := Fp2{x, a.B.Mul(h).Mul(x.Inv())}
	return r, r.Mul(r) == a
}

// Large compares with the opposite, B first.
func (a Fp2) Large() bool {
	if a.B.IsZero() {
		return a.A.Large()
	}
	return a.B.Large()
}

// Sgn0 is RFC 9380's sign for the quadratic extension.
func (a Fp2) Sgn0() uint {
	if a.A.IsZero() {
		return a.B.Sgn0()
	}
	return a.A.Sgn0()
}

// Bytes is the 96 byte form, B first.
func (a Fp2) Bytes() []byte { return append(a.B.Bytes(), a.A.Bytes()...) }
