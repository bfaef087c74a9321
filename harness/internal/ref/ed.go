package ref

import (
	"crypto/sha512"
	"math/big"
)

// Constants of Curve25519 and Edwards25519.
var (
	P25, _  = new(big.Int).SetString("57896044618658097711785492504343953926634992332820282019728792003956564819949", 10)
	L25, _  = new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
	d25     = mod25(mul25(big.NewInt(-121665), inv25(big.NewInt(121666))))
	sqrtM1  = new(big.Int).Exp(big.NewInt(2), new(big.Int).Rsh(new(big.Int).Sub(P25, big.NewInt(1)), 2), P25)
	EdBase  = edBase()
	edTab   []edExt
	one25   = big.NewInt(1)
	zero25  = big.NewInt(0)
	mask255 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(1))
)

func mod25(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P25) }
func mul25(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, P25) }
func add25(a, b *big.Int) *big.Int { v := new(big.Int).Add(a, b); return v.Mod(v, P25) }
func sub25(a, b *big.Int) *big.Int { v := new(big.Int).Sub(a, b); return v.Mod(v, P25) }

// inv25 is the inverse, and 0 of 0.
func inv25(a *big.Int) *big.Int {
	v := new(big.Int).Mod(a, P25)
	if v.Sign() == 0 {
		return v
	}
	return v.ModInverse(v, P25)
}

// Ed is an affine point of -x^2 + y^2 = 1 + d x^2 y^2; the identity is (0, 1).
type Ed struct{ X, Y *big.Int }

type edExt struct{ X, Y, Z, T *big.Int }

func edBase() Ed {
	y := mul25(big.NewInt(4), inv25(big.NewInt(5)))
	p, ok := edLift(y, 0)
	if !ok {
		panic("base point")
	}
	return p
}

func edLift(y *big.Int, sign uint) (Ed, bool) {
	y = mod25(y)
	y2 := mul25(y, y)
	x2 := mul25(sub25(y2, big.NewInt(1)), inv25(add25(mul25(d25, y2), big.NewInt(1))))
	x := new(big.Int).ModSqrt(x2, P25)
	if x == nil {
		return Ed{}, false
	}
	if x.Bit(0) != sign {
		x = sub25(big.NewInt(0), x)
	}
	return Ed{x, y}, true
}

// EdLift is a point with the given y and sign of x (ignored when x is 0).
func EdLift(y *big.Int, sign uint) (Ed, bool) { return edLift(y, sign) }

// EdDecode reads a 32 byte encoding; the sign bit is ignored for x = 0 and y is taken modulo the prime.
func EdDecode(b []byte) (Ed, bool) {
	if len(b) != 32 {
		return Ed{}, false
	}
	v := leInt(b)
	return edLift(new(big.Int).And(v, mask255), uint(b[31]>>7))
}

func leInt(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

func leBytes(v *big.Int, n int) []byte {
	b := v.FillBytes(make([]byte, n))
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// Enc is the standard encoding.
func (p Ed) Enc() []byte {
	b := leBytes(p.Y, 32)
	b[31] |= byte(p.X.Bit(0)) << 7
	return b
}

// Id reports whether p is the identity.
func (p Ed) Id() bool { return p.X.Sign() == 0 && p.Y.Cmp(one25) == 0 }

// Neg is -p.
func (p Ed) Neg() Ed { return Ed{sub25(zero25, p.X), p.Y} }

func (p Ed) ext() edExt { return edExt{p.X, p.Y, big.NewInt(1), mul25(p.X, p.Y)} }

func (p edExt) aff() Ed { i := inv25(p.Z); return Ed{mul25(p.X, i), mul25(p.Y, i)} }

// add is the unified addition, complete for this curve.
func (p edExt) add(q edExt) edExt {
	a := mul25(sub25(p.Y, p.X), sub25(q.Y, q.X))
	b := mul25(add25(p.Y, p.X), add25(q.Y, q.X))
	c := mul25(mul25(p.T, new(big.Int).Lsh(d25, 1)), q.T)
	d := mul25(new(big.Int).Lsh(p.Z, 1), q.Z)
	e, f, g, h := sub25(b, a), sub25(d, c), add25(d, c), add25(b, a)
	return edExt{mul25(e, f), mul25(g, h), mul25(f, g), mul25(e, h)}
}

// Add is the sum.
func (p Ed) Add(q Ed) Ed { return p.ext().add(q.ext()).aff() }

// Mul is kp for any k >= 0.
func (p Ed) Mul(k *big.Int) Ed {
	r := edExt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	e := p.ext()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if k.Bit(i) == 1 {
			r = r.add(e)
		}
	}
	return r.aff()
}

func init() {
	e := EdBase.ext()
	for i := 0; i < 256; i++ {
		edTab = append(edTab, e)
		e = e.add(e)
	}
	if !EdBase.Mul(L25).Id() {
		panic("order")
	}
}

// EdMulBase is k times the base point, k below 2^256.
func EdMulBase(k *big.Int) Ed {
	r := edExt{big.NewInt(0), big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = r.add(edTab[i])
		}
	}
	return r.aff()
}

// EdTorsion lists the eight points of small order.
func EdTorsion() []Ed {
	// find a point of order 8: L times a random point
	for y := int64(2); ; y++ {
		p, ok := edLift(big.NewInt(y), 0)
		if !ok {
			continue
		}
		t := p.Mul(L25)
		if t.Mul(big.NewInt(4)).Id() {
			continue
		}
		var out []Ed
		q := Ed{big.NewInt(0), big.NewInt(1)}
		for i := 0; i < 8; i++ {
			out = append(out, q)
			q = q.Add(t)
		}
		return out
	}
}

// EdToX is the u coordinate of the birational map; 0 for y = 1.
func EdToX(y *big.Int) *big.Int {
	return mul25(add25(big.NewInt(1), y), inv25(sub25(big.NewInt(1), y)))
}

// XToEdY is the y coordinate; 0 denominators give 0.
func XToEdY(u *big.Int) *big.Int {
	return mul25(sub25(u, big.NewInt(1)), inv25(add25(u, big.NewInt(1))))
}

func sha512Int(bs ...[]byte) *big.Int {
	h := sha512.New()
	for _, b := range bs {
		h.Write(b)
	}
	return new(big.Int).Mod(leInt(h.Sum(nil)), L25)
}

// X25519Sign is the signature with the given 64 random bytes.
func X25519Sign(pri, msg, random []byte) []byte {
	a := new(big.Int).Mod(leInt(pri), L25)
	ed := EdMulBase(a).Enc()
	pre := make([]byte, 32)
	for i := range pre {
		pre[i] = 0xff
	}
	pre[0] = 0xfe
	r := sha512Int(pre, pri, msg, random)
	return x25519Finish(a, r, ed, msg)
}

// X25519SignWith is the signature with a chosen nonce.
func X25519SignWith(a, r *big.Int, msg []byte) []byte {
	return x25519Finish(a, r, EdMulBase(a).Enc(), msg)
}

func x25519Finish(a, r *big.Int, ed, msg []byte) []byte {
	R := EdMulBase(r).Enc()
	k := sha512Int(R, ed, msg)
	s := new(big.Int).Mul(k, a)
	s.Add(s, r).Mod(s, L25)
	sig := append(R, leBytes(s, 32)...)
	sig[63] |= ed[31] & 0x80
	return sig
}

// X25519Verify decides a signature.
func X25519Verify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 || len(msg) == 0 {
		return false
	}
	s := leInt(sig[32:])
	sign := s.Bit(255)
	s.And(s, mask255)
	if s.BitLen() > 253 {
		return false
	}
	u := mod25(new(big.Int).And(leInt(pub), mask255))
	y := XToEdY(u)
	A, ok := edLift(y, sign)
	if !ok {
		return false
	}
	ed := leBytes(y, 32)
	ed[31] |= byte(sign) << 7
	k := sha512Int(sig[:32], ed, msg)
	R := EdMulBase(s).ext().add(A.Neg().Mul(k).ext()).aff()
	return string(R.Enc()) == string(sig[:32])
}

// Mont is Curve25519 as a short Weierstrass curve: X = u + 486662/3.
var (
	third25 = mul25(big.NewInt(486662), inv25(big.NewInt(3)))
	Mont    = func() *Curve {
		a := big.NewInt(486662)
		a2 := mul25(a, a)
		A := sub25(big.NewInt(1), mul25(a2, inv25(big.NewInt(3))))
		B := sub25(mul25(mul25(big.NewInt(2), mul25(a2, a)), inv25(big.NewInt(27))), mul25(a, inv25(big.NewInt(3))))
		c := &Curve{Name: "curve25519", P: P25, A: A, B: B, N: L25}
		p, ok := c.Lift(add25(big.NewInt(9), third25), MontBaseOdd)
		if !ok {
			panic("base")
		}
		c.G = p
		q := p
		for i := 0; i < 256; i++ {
			c.tab = append(c.tab, q)
			q = c.Add(q, q)
		}
		if !c.Mul(c.G, L25).Inf() {
			panic("order")
		}
		return c
	}()
)

// MontBaseOdd is the parity of the y coordinate of the base point.
const MontBaseOdd = 0

// MontU is the u coordinate, 0 at infinity.
func MontU(p Pt) *big.Int {
	if p.Inf() {
		return big.NewInt(0)
	}
	return sub25(p.X, third25)
}

// MontLift is the point with the given u and parity of y.
func MontLift(u *big.Int, odd uint) (Pt, bool) { return Mont.Lift(add25(u, third25), odd) }

func clamp25(k []byte) *big.Int {
	c := append([]byte{}, k...)
	c[0] &= 0xf8
	c[31] = c[31]&0x7f | 0x40
	return leInt(c)
}

// KcdsaKeys gives the public key and the signing key (the inverse of the private scalar whose point has an even y).
func KcdsaKeys(pri []byte) (pub []byte, s *big.Int) {
	k := clamp25(pri)
	p := Mont.MulG(k)
	kk := new(big.Int).Set(k)
	if p.Y.Bit(0) == 1 {
		kk.Neg(kk)
	}
	kk.Mod(kk, L25)
	return leBytes(MontU(p), 32), kk.ModInverse(kk, L25)
}

// KcdsaSign is the deterministic signature.
func KcdsaSign(pri, msg []byte) []byte {
	_, s := KcdsaKeys(pri)
	m := S256(msg)
	x := clamp25(S256(append(append([]byte{}, m...), leBytes(s, 32)...)))
	return KcdsaSignWith(s, x, msg)
}

// KcdsaSignWith uses a chosen nonce x.
func KcdsaSignWith(s, x *big.Int, msg []byte) []byte {
	m := S256(msg)
	Y := leBytes(MontU(Mont.MulG(x)), 32)
	h := S256(append(append([]byte{}, m...), Y...))
	v := new(big.Int).Sub(x, leInt(h))
	v.Mul(v, s).Mod(v, L25)
	return append(leBytes(v, 32), h...)
}

// KcdsaVerify decides; ok2 is false when the key is not on the curve and the scheme says nothing.
func KcdsaVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 || len(msg) == 0 {
		return false
	}
	v, h := leInt(sig[:32]), leInt(sig[32:])
	u := leInt(pub)
	if v.Cmp(L25) >= 0 || u.Cmp(P25) >= 0 {
		return false
	}
	p, ok := MontLift(u, 0)
	if !ok {
		return false
	}
	q := Mont.Add(Mont.Mul(p, v), Mont.MulG(h))
	Y := leBytes(MontU(q), 32)
	return string(S256(append(append([]byte{}, S256(msg)...), Y...))) == string(sig[32:])
}
