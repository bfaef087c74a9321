package ref

import (
	"crypto/sha256"
	"math/big"
)

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("bad constant " + s)
	}
	return v
}

// Curve is y^2 = x^3 + ax + b over the prime field of P, of prime order N.
type Curve struct {
	Name       string
	P, A, B, N *big.Int
	G          Pt
	tab        []Pt // 2^i G
}

// Pt is an affine point; X nil is the point at infinity.
type Pt struct{ X, Y *big.Int }

// Inf reports whether the point is at infinity.
func (p Pt) Inf() bool { return p.X == nil }

// Eq compares points.
func (p Pt) Eq(q Pt) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() == q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func mk(name, p, a, b, n, gx, gy string) *Curve {
	c := &Curve{Name: name, P: hx(p), A: hx(a), B: hx(b), N: hx(n), G: Pt{hx(gx), hx(gy)}}
	if !c.On(c.G) {
		panic("generator of " + name)
	}
	q := c.G
	for i := 0; i < 256; i++ {
		c.tab = append(c.tab, q)
		q = c.Add(q, q)
	}
	if !c.Mul(c.G, c.N).Inf() {
		panic("order of " + name)
	}
	return c
}

// The curves.
var (
	K1 = mk("secp256k1", "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "0", "7",
		"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
		"79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
	R1 = mk("secp256r1", "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc", "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
		"ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
		"6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296", "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5")
	SM2 = mk("sm2", "fffffffeffffffffffffffffffffffffffffffff00000000ffffffffffffffff", "fffffffeffffffffffffffffffffffffffffffff00000000fffffffffffffffc", "28e9fa9e9d9f5e344d5a9e4bcf6509a7f39789f515ab8f92ddbcbd414d940e93",
		"fffffffeffffffffffffffffffffffff7203df6b21c6052b53bbf40939d54123",
		"32c4ae2c1f1981195f9904466a39c9948fe30bbff2660be1715a4589334c74c7", "bc3736a2f4f6779c59bdcee36b692153d0a9877cc62a474002df32e52139f0a0")
	Pallas = mk("pasta", "40000000000000000000000000000000224698fc094cf91b992d30ed00000001", "0", "5",
		"40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
		"1", "1b74b5a30a12937c53dfa9f06378ee548f655bd4333d477119cf7a23caed2abb")
)

// On reports whether the point is on the curve with reduced coordinates (infinity is not).
func (c *Curve) On(p Pt) bool {
	if p.Inf() || p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(c.P) >= 0 || p.Y.Cmp(c.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	l.Sub(l, c.rhs(p.X))
	return l.Mod(l, c.P).Sign() == 0
}

func (c *Curve) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Add(r, c.A)
	r.Mul(r, x)
	r.Add(r, c.B)
	return r.Mod(r, c.P)
}

// Lift returns the point with the x coordinate and the parity of y.
func (c *Curve) Lift(x *big.Int, odd uint) (Pt, bool) {
	if x.Cmp(c.P) >= 0 {
		return Pt{}, false
	}
	y := new(big.Int).ModSqrt(c.rhs(x), c.P)
	if y == nil {
		return Pt{}, false
	}
	if y.Bit(0) != odd {
		if y.Sign() == 0 {
			return Pt{}, false
		}
		y.Sub(c.P, y)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// Neg is the opposite point.
func (c *Curve) Neg(p Pt) Pt {
	if p.Inf() {
		return p
	}
	y := new(big.Int).Sub(c.P, p.Y)
	return Pt{p.X, y.Mod(y, c.P)}
}

// Add is the textbook chord and tangent rule.
func (c *Curve) Add(p, q Pt) Pt {
	if p.Inf() {
		return q
	}
	if q.Inf() {
		return p
	}
	var num, den *big.Int
	if p.X.Cmp(q.X) == 0 {
		if new(big.Int).Mod(new(big.Int).Add(p.Y, q.Y), c.P).Sign() == 0 {
			return Pt{}
		}
		num = new(big.Int).Mul(p.X, p.X)
		num.Mul(num, big.NewInt(3))
		num.Add(num, c.A)
		den = new(big.Int).Lsh(p.Y, 1)
	} else {
		num = new(big.Int).Sub(q.Y, p.Y)
		den = new(big.Int).Sub(q.X, p.X)
	}
	den.Mod(den, c.P)
	l := num.Mul(num, den.ModInverse(den, c.P))
	l.Mod(l, c.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, c.P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	y.Mod(y, c.P)
	return Pt{x, y}
}

// jac is a Jacobian point, for the scalar multiplications only.
type jac struct{ X, Y, Z *big.Int }

func (c *Curve) jdbl(p jac) jac {
	if p.Z.Sign() == 0 || p.Y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, c.P) }
	yy := m(p.Y, p.Y)
	s := m(p.X, yy)
	s.Lsh(s, 2).Mod(s, c.P)
	zz := m(p.Z, p.Z)
	t := m(m(zz, zz), c.A)
	mm := m(p.X, p.X)
	mm.Mul(mm, big.NewInt(3)).Add(mm, t).Mod(mm, c.P)
	x := m(mm, mm)
	x.Sub(x, s).Sub(x, s).Mod(x, c.P)
	y4 := m(yy, yy)
	y := new(big.Int).Sub(s, x)
	y.Mul(y, mm).Sub(y, y4.Lsh(y4, 3)).Mod(y, c.P)
	z := m(p.Y, p.Z)
	z.Lsh(z, 1).Mod(z, c.P)
	return jac{x, y, z}
}

func (c *Curve) jaddAffine(p jac, q Pt) jac {
	if q.Inf() {
		return p
	}
	if p.Z.Sign() == 0 {
		return jac{new(big.Int).Set(q.X), new(big.Int).Set(q.Y), big.NewInt(1)}
	}
	m := func(a, b *big.Int) *big.Int { r := new(big.Int).Mul(a, b); return r.Mod(r, c.P) }
	zz := m(p.Z, p.Z)
	u := m(q.X, zz)
	s := m(m(q.Y, p.Z), zz)
	h := new(big.Int).Sub(u, p.X)
	h.Mod(h, c.P)
	r := new(big.Int).Sub(s, p.Y)
	r.Mod(r, c.P)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return c.jdbl(p)
		}
		return jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	}
	hh := m(h, h)
	hhh := m(hh, h)
	v := m(p.X, hh)
	x := m(r, r)
	x.Sub(x, hhh).Sub(x, v).Sub(x, v).Mod(x, c.P)
	y := new(big.Int).Sub(v, x)
	y.Mul(y, r).Sub(y, m(p.Y, hhh)).Mod(y, c.P)
	return jac{x, y, m(p.Z, h)}
}

func (c *Curve) aff(p jac) Pt {
	if p.Z.Sign() == 0 {
		return Pt{}
	}
	zi := new(big.Int).ModInverse(p.Z, c.P)
	z2 := new(big.Int).Mul(zi, zi)
	x := new(big.Int).Mul(p.X, z2)
	y := new(big.Int).Mul(p.Y, z2.Mul(z2, zi))
	return Pt{x.Mod(x, c.P), y.Mod(y, c.P)}
}

// Mul is kP for k >= 0 (not reduced).
func (c *Curve) Mul(p Pt, k *big.Int) Pt {
	r := jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = c.jdbl(r)
		if k.Bit(i) == 1 {
			r = c.jaddAffine(r, p)
		}
	}
	return c.aff(r)
}

// MulG is kG.
func (c *Curve) MulG(k *big.Int) Pt {
	if k.BitLen() > 256 {
		return c.Mul(c.G, k)
	}
	r := jac{big.NewInt(1), big.NewInt(1), new(big.Int)}
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = c.jaddAffine(r, c.tab[i])
		}
	}
	return c.aff(r)
}

// Enc is X||Y, zero bytes at infinity.
func (p Pt) Enc() []byte {
	b := make([]byte, 64)
	if !p.Inf() {
		p.X.FillBytes(b[:32])
		p.Y.FillBytes(b[32:])
	}
	return b
}

// Enc33 is the compressed form.
func (p Pt) Enc33() []byte {
	b := make([]byte, 33)
	b[0] = 2 + byte(p.Y.Bit(0))
	p.X.FillBytes(b[1:])
	return b
}

// Dec reads X||Y without a check.
func Dec(b []byte) Pt {
	return Pt{new(big.Int).SetBytes(b[:32]), new(big.Int).SetBytes(b[32:64])}
}

// ECDSAVerify is the decision of the standard on 64 byte keys and signatures and 32 byte hashes.
func (c *Curve) ECDSAVerify(pub, hash, sig []byte) bool {
	if len(pub) != 64 || len(sig) != 64 || len(hash) != 32 {
		return false
	}
	q := Dec(pub)
	if !c.On(q) {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, c.N)
	u1 := new(big.Int).Mul(new(big.Int).SetBytes(hash), w)
	u2 := new(big.Int).Mul(r, w)
	p := c.Add(c.MulG(u1.Mod(u1, c.N)), c.Mul(q, u2.Mod(u2, c.N)))
	if p.Inf() {
		return false
	}
	return new(big.Int).Mod(p.X, c.N).Cmp(r) == 0
}

// ECDSARecover returns the key, if any, for r, s and the parity of y.
func (c *Curve) ECDSARecover(hash []byte, r, s *big.Int, odd uint) (Pt, bool) {
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 {
		return Pt{}, false
	}
	R, ok := c.Lift(r, odd)
	if !ok {
		return Pt{}, false
	}
	ri := new(big.Int).ModInverse(r, c.N)
	a := new(big.Int).Mul(s, ri)
	a.Mod(a, c.N)
	b := new(big.Int).SetBytes(hash)
	b.Mul(b, ri).Neg(b).Mod(b, c.N)
	q := c.Add(c.Mul(R, a), c.MulG(b))
	return q, !q.Inf()
}

// SM2Z is the digest of the identity, the curve and the public key.
func SM2Z(id []byte, pub []byte) []byte {
	var b []byte
	b = append(b, byte(len(id)*8>>8), byte(len(id)*8))
	b = append(b, id...)
	c := SM2
	for _, v := range []*big.Int{c.A, c.B, c.G.X, c.G.Y} {
		b = append(b, v.FillBytes(make([]byte, 32))...)
	}
	return SM3(append(b, pub...))
}

// SM2Digest is e of a message: with an identity of Z and the message, without the message itself.
func SM2Digest(id, pub, msg []byte) *big.Int {
	if id == nil {
		return new(big.Int).SetBytes(msg)
	}
	return new(big.Int).SetBytes(SM3(append(SM2Z(id, pub), msg...)))
}

// SM2Verify is the decision of GB/T 32918.2; it also returns the point.
func SM2Verify(pub []byte, e *big.Int, sig []byte) (bool, Pt) {
	c := SM2
	if len(pub) != 64 || len(sig) != 64 {
		return false, Pt{}
	}
	q := Dec(pub)
	if !c.On(q) {
		return false, Pt{}
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 {
		return false, Pt{}
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return false, Pt{}
	}
	p := c.Add(c.MulG(s), c.Mul(q, t))
	if p.Inf() {
		return false, p
	}
	x := new(big.Int).Add(p.X, e)
	return x.Mod(x, c.N).Cmp(r) == 0, p
}

// SM2Encrypt is GB/T 32918.4 with C1||C3||C2 and a given k (nil when the key stream is zero).
func SM2Encrypt(pub []byte, k *big.Int, plain []byte) []byte {
	c := SM2
	c1 := c.MulG(k)
	kp := c.Mul(Dec(pub), k).Enc()
	t := KDF(kp, len(plain))
	c2 := make([]byte, len(plain))
	zero := true
	for i := range plain {
		c2[i] = plain[i] ^ t[i]
		zero = zero && t[i] == 0
	}
	if zero {
		return nil
	}
	c3 := SM3(append(append(append([]byte{}, kp[:32]...), plain...), kp[32:]...))
	out := append([]byte{4}, c1.Enc()...)
	return append(append(out, c3...), c2...)
}

// SM2Decrypt is the reverse; ok is false for anything that the standard refuses.
func SM2Decrypt(d *big.Int, cipher []byte) (plain []byte, ok bool) {
	c := SM2
	if len(cipher) <= 97 || cipher[0] != 4 {
		return nil, false
	}
	c1 := Dec(cipher[1:65])
	if !c.On(c1) {
		return nil, false
	}
	kp := c.Mul(c1, d).Enc()
	c2 := cipher[97:]
	t := KDF(kp, len(c2))
	zero := true
	for i := range c2 {
		plain = append(plain, c2[i]^t[i])
		zero = zero && t[i] == 0
	}
	if zero {
		return nil, false
	}
	c3 := SM3(append(append(append([]byte{}, kp[:32]...), plain...), kp[32:]...))
	return plain, string(c3) == string(cipher[65:97])
}

// SM2KA is one side of the key agreement: t = d + xbar r, V = t (Q + xbar' R'). Returns the key,
// and the two confirmation values (0x02 of the responder, 0x03 of the initiator).
func SM2KA(initiator bool, idA, idB []byte, d, r *big.Int, pubSelf, pubOther, tmpSelf, tmpOther []byte, klen int) (key, s2, s3 []byte) {
	c := SM2
	bar := func(x *big.Int) *big.Int {
		m := new(big.Int).Lsh(big.NewInt(1), 127)
		v := new(big.Int).Mod(x, m)
		return v.Add(v, m)
	}
	t := new(big.Int).Mul(bar(Dec(tmpSelf).X), r)
	t.Add(t, d).Mod(t, c.N)
	u := c.Mul(c.Add(Dec(pubOther), c.Mul(Dec(tmpOther), bar(Dec(tmpOther).X))), t).Enc()
	pubA, pubB, ra, rb := pubSelf, pubOther, tmpSelf, tmpOther
	if !initiator {
		pubA, pubB, ra, rb = pubOther, pubSelf, tmpOther, tmpSelf
	}
	return SM2KAFrom(u, SM2Z(idA, pubA), SM2Z(idB, pubB), ra, rb, klen)
}

// SM2KAFrom is the last step of the key agreement: the shared point, the digests of the identities and the ephemeral keys.
func SM2KAFrom(u, za, zb, ra, rb []byte, klen int) (key, s2, s3 []byte) {
	cat := func(bs ...[]byte) (o []byte) {
		for _, b := range bs {
			o = append(o, b...)
		}
		return
	}
	key = KDF(cat(u, za, zb), klen)
	inner := SM3(cat(u[:32], za, zb, ra, rb))
	s2 = SM3(cat([]byte{2}, u[32:], inner))
	s3 = SM3(cat([]byte{3}, u[32:], inner))
	return
}

// S256 is SHA-256.
func S256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
