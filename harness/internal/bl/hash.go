package bl

import (
	"crypto/sha256"
	"math/big"
)

// Expand is expand_message_xmd with SHA-256.
func Expand(msg, dst []byte, n int) []byte {
	if len(dst) > 255 {
		panic("long tag")
	}
	dp := append(append([]byte{}, dst...), byte(len(dst)))
	sum := func(parts ...[]byte) []byte {
		h := sha256.New()
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	b0 := sum(make([]byte, 64), msg, []byte{byte(n >> 8), byte(n), 0}, dp)
	b := sum(b0, []byte{1}, dp)
	out := append([]byte{}, b...)
	for i := 2; len(out) < n; i++ {
		x := make([]byte, 32)
		for j := range x {
			x[j] = b0[j] ^ b[j]
		}
		b = sum(x, []byte{byte(i)}, dp)
		out = append(out, b...)
	}
	return out[:n]
}

func hashFp(msg, dst []byte, n int) (o []Fp) {
	b := Expand(msg, dst, 64*n)
	for i := 0; i < n; i++ {
		o = append(o, FpInt(new(big.Int).SetBytes(b[64*i:64*i+64])))
	}
	return
}

// sswu is the map of 6.6.2 to y^2 = x^3 + Ax + B.
func sswu[F field[F]](a, b, z, u F) (x, y F) {
	zu := z.Mul(u).Mul(u)
	t := zu.Mul(zu).Add(zu)
	x = b.Neg().Mul(a.Inv()).Mul(u.One().Add(t.Inv()))
	if t.IsZero() {
		x = b.Mul(z.Mul(a).Inv())
	}
	g := x.Mul(x).Mul(x).Add(a.Mul(x)).Add(b)
	y, ok := g.Sqrt()
	if !ok {
		x = zu.Mul(x)
		g = x.Mul(x).Mul(x).Add(a.Mul(x)).Add(b)
		if y, ok = g.Sqrt(); !ok {
			panic("sswu")
		}
	}
	if y.Sgn0() != u.Sgn0() {
		y = y.Neg()
	}
	return
}

func horner[F field[F]](c []F, x F) (r F) {
	for i := len(c) - 1; i >= 0; i-- {
		r = r.Mul(x).Add(c[i])
	}
	return
}

func isogeny[F field[F]](t *[4][]F, x, y F) Pt[F] {
	xd, yd := horner(t[1], x), horner(t[3], x)
	if xd.IsZero() || yd.IsZero() {
		return Pt[F]{Inf: true}
	}
	return Pt[F]{X: horner(t[0], x).Mul(xd.Inv()), Y: y.Mul(horner(t[2], x)).Mul(yd.Inv())}
}

var (
	t1                = [4][]Fp{}
	t2                = [4][]Fp2{}
	a1, b1, z1        Fp
	a2, b2, z2        Fp2
	heff1, heff2, abs *big.Int
)

func init() {
	for i := range iso1 {
		for _, s := range iso1[i] {
			t1[i] = append(t1[i], fph(s))
		}
		for _, s := range iso2[i] {
			t2[i] = append(t2[i], Fp2{fph(s[0]), fph(s[1])})
		}
	}
	a1 = fph("144698a3b8e9433d693a02c96d4982b0ea985383ee66a8d8e8981aefd881ac98936f8da0e0f97f5cf428082d584c1d")
	b1 = fph("12e2908d11688030018b12e8753eee3b2016c1f0f24f4070a0b9c14fcef35ef55a23215a316ceaa5d1cc48e98e172be0")
	z1 = FpInt(big.NewInt(11))
	a2 = Fp2{B: FpInt(big.NewInt(240))}
	b2 = Fp2{FpInt(big.NewInt(1012)), FpInt(big.NewInt(1012))}
	z2 = Fp2{FpInt(big.NewInt(-2)), FpInt(big.NewInt(-1))}
	abs = hx("d201000000010000")
	heff1 = hx("d201000000010001")
	heff2 = hx("bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551")
}

// Map1 and Map2 are map_to_curve, before clearing the cofactor.
func Map1(u Fp) P1 { x, y := sswu(a1, b1, z1, u); return isogeny(&t1, x, y) }

// Map2 is the map for G2.
func Map2(u Fp2) P2 { x, y := sswu(a2, b2, z2, u); return isogeny(&t2, x, y) }

// Clear1 clears the cofactor.
func Clear1(p P1) P1 { return G1.Mul(p, heff1) }

// Clear2 clears the cofactor.
func Clear2(p P2) P2 { return G2.Mul(p, heff2) }

// Hash1 is BLS12381G1_XMD:SHA-256_SSWU_RO_.
func Hash1(msg, dst []byte) P1 {
	u := hashFp(msg, dst, 2)
	return Clear1(G1.Add(Map1(u[0]), Map1(u[1])))
}

// Encode1 is BLS12381G1_XMD:SHA-256_SSWU_NU_.
func Encode1(msg, dst []byte) P1 { return Clear1(Map1(hashFp(msg, dst, 1)[0])) }

// Hash2 is BLS12381G2_XMD:SHA-256_SSWU_RO_.
func Hash2(msg, dst []byte) P2 {
	u := hashFp(msg, dst, 4)
	return Clear2(G2.Add(Map2(Fp2{u[0], u[1]}), Map2(Fp2{u[2], u[3]})))
}

// Encode2 is BLS12381G2_XMD:SHA-256_SSWU_NU_.
func Encode2(msg, dst []byte) P2 {
	u := hashFp(msg, dst, 2)
	return Clear2(Map2(Fp2{u[0], u[1]}))
}
