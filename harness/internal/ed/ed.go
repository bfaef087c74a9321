// Package ed has what the checks of the Edwards and Montgomery schemes share.
package ed

import (
	"crypto/ed25519"
	"crypto/sha512"
	"math/big"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

var (
	P, L    = ref.P25, ref.L25
	One     = big.NewInt(1)
	Two255  = new(big.Int).Lsh(One, 255)
	Two256  = new(big.Int).Lsh(One, 256)
	Torsion = ref.EdTorsion()
)

// Scalar32 is a 32 byte string that stresses scalar arithmetic.
func Scalar32(c *mon.Ctx) []byte {
	switch c.Intn(14) {
	case 0:
		return mon.LE(c.Scalar0(L), 32)
	case 1: // around multiples of the order
		v := new(big.Int).Mul(L, big.NewInt(int64(c.Intn(16))))
		v.Add(v, big.NewInt(int64(c.Intn(5)-2)))
		return mon.LE(v.Mod(v, Two256), 32)
	case 2:
		return mon.LE(new(big.Int).Sub(Two256, big.NewInt(int64(1+c.Intn(4)))), 32)
	case 3:
		return mon.LE(new(big.Int).Add(new(big.Int).Lsh(One, uint(250+c.Intn(6))), big.NewInt(int64(c.Intn(3)))), 32)
	case 4:
		return mon.LE(big.NewInt(int64(c.Intn(20))), 32)
	case 5:
		return mon.LE(c.Scalar0(Two256), 32)
	case 6: // nibbles that make the signed digits carry
		b := c.Bytes(32)
		for i := range b {
			b[i] = []byte{0x77, 0x78, 0x87, 0x88, 0x7f, 0x80, 0xf7, 0xf8, 0x89, 0x98, 0xff, 0x00, 0x8f, 0x08, 0x70, 0x07}[b[i]&15]
		}
		return b
	case 7: // 21 bit limbs at their ends
		v := new(big.Int)
		for i := 0; i < 13; i++ {
			l := []int64{0, 1, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<21 - 1}[c.Intn(6)]
			v.Or(v, new(big.Int).Lsh(big.NewInt(l), uint(21*i)))
		}
		return mon.LE(v.Mod(v, Two256), 32)
	}
	return c.Bytes(32)
}

// Point is a point of the curve: a multiple of the base point, possibly plus a point of small order, or with a special y.
func Point(c *mon.Ctx) ref.Ed {
	switch c.Intn(10) {
	case 0:
		return Torsion[c.Intn(8)]
	case 1:
		return ref.EdBase
	case 2:
		return ref.EdMulBase(new(big.Int).Sub(L, big.NewInt(int64(1+c.Intn(3)))))
	case 3:
		y := new(big.Int).Set(c.SmallX(P))
		for {
			if p, ok := ref.EdLift(y, uint(c.Intn(2))); ok {
				return p
			}
			y.Add(y, One)
		}
	case 4:
		return ref.EdMulBase(c.Scalar0(L)).Add(Torsion[c.Intn(8)])
	case 5:
		return ref.EdMulBase(big.NewInt(int64(1 + c.Intn(20))))
	}
	return ref.EdMulBase(c.Big(L))
}

// Encodings are all 32 byte strings that decode to p.
func Encodings(p ref.Ed) [][]byte {
	out := [][]byte{p.Enc()}
	if p.X.Sign() == 0 {
		b := p.Enc()
		b[31] |= 0x80
		out = append(out, b)
	}
	if y := new(big.Int).Add(p.Y, P); y.Cmp(Two255) < 0 {
		b := mon.LE(y, 32)
		b[31] |= byte(p.X.Bit(0)) << 7
		out = append(out, b)
		if p.X.Sign() == 0 {
			d := append([]byte{}, b...)
			d[31] ^= 0x80
			out = append(out, d)
		}
	}
	return out
}

// Bad is a 32 byte string that does not decode.
func Bad(c *mon.Ctx) []byte {
	for {
		b := c.Bytes(32)
		if c.Intn(3) == 0 {
			b = mon.LE(c.SmallX(P), 32)
		}
		if _, ok := ref.EdDecode(b); !ok {
			return b
		}
	}
}

// StdVerify is the standard library's decision.
func StdVerify(pub, msg, sig []byte) bool {
	if len(pub) != 32 || len(sig) != 64 {
		return false
	}
	return ed25519.Verify(ed25519.PublicKey(pub), msg, sig)
}

// Hram is SHA-512(R, A, M) modulo the order.
func Hram(R, A, m []byte) *big.Int {
	h := sha512.New()
	h.Write(R)
	h.Write(A)
	h.Write(m)
	v := mon.FromLE(h.Sum(nil))
	return v.Mod(v, L)
}

// Sign makes a signature with scalar a and nonce r for the key encoding A.
func Sign(a, r *big.Int, R, A, m []byte) []byte {
	s := new(big.Int).Mul(Hram(R, A, m), a)
	s.Add(s, r).Mod(s, L)
	return append(append([]byte{}, R...), mon.LE(s, 32)...)
}

// HostileVerify gives verify (the code under test) signatures that are genuine, mutated or constructed and compares the decision with the standard library's.
func HostileVerify(c *mon.Ctx, verify func(pub, msg, sig []byte) bool) {
	decide := func(what string, pub, msg, sig []byte) bool {
		want := StdVerify(pub, msg, sig)
		got := verify(append([]byte{}, pub...), append([]byte{}, msg...), append([]byte{}, sig...))
		if got != want {
			c.Failf("%s: verification of %s by %s for %s gives %v, the standard library %v", what, mon.Hex(sig), mon.Hex(pub), mon.Hex(msg), got, want)
		}
		cl := "refused:"
		if want {
			cl = "accepted:"
		}
		c.Seen(cl+what, pub, msg, sig)
		return want
	}
	m := c.Bytes(c.Len(300))
	a := c.Scalar(L)
	A := ref.EdMulBase(a)
	r := c.Scalar0(L)
	R := ref.EdMulBase(r)
	pub := A.Enc()
	sig := Sign(a, r, R.Enc(), pub, m)
	decide("genuine", pub, m, sig)
	// S and the multiples of the order
	s := mon.FromLE(sig[32:])
	for k := int64(1); k < 16; k++ {
		v := new(big.Int).Add(s, new(big.Int).Mul(L, big.NewInt(k)))
		if v.Cmp(Two256) < 0 && (k < 3 || c.Intn(4) == 0) {
			decide("S not reduced", pub, m, append(append([]byte{}, sig[:32]...), mon.LE(v, 32)...))
		}
	}
	// negated S, R, A
	n := new(big.Int).Sub(L, s)
	decide("negated", pub, m, append(append([]byte{}, sig[:32]...), mon.LE(n, 32)...))
	decide("negated", pub, m, append(R.Neg().Enc(), sig[32:]...))
	decide("negated", A.Neg().Enc(), m, sig)
	decide("mutated", pub, m, mutate(c, sig))
	decide("mutated", pub, mutate(c, m), sig)
	decide("mutated", mutate(c, pub), m, sig)
	decide("other key", Point(c).Enc(), m, sig)
	for _, l := range []int{0, 1, 31, 32, 33, 63} {
		decide("length", pub, m, sig[:l])
		if l < 32 {
			decide("length", pub[:l], m, sig)
		}
	}
	decide("length", append(append([]byte{}, pub...), 0), m, sig)
	decide("length", pub, m, append(append([]byte{}, sig...), 0))
	decide("length", nil, m, sig)
	decide("length", pub, m, nil)
	decide("bad key", Bad(c), m, sig)
	decide("bad R", pub, m, append(Bad(c), sig[32:]...))
	// R = identity, S = k a
	id := ref.Ed{X: big.NewInt(0), Y: big.NewInt(1)}
	decide("zero nonce", pub, m, Sign(a, big.NewInt(0), id.Enc(), pub, m))
	// a key with a small order component: accepted when the hash kills it
	t := Torsion[1+c.Intn(7)]
	At := A.Add(t).Enc()
	for i := 0; i < 20; i++ {
		r := c.Big(L)
		Re := ref.EdMulBase(r).Enc()
		if decide("mixed order key", At, m, Sign(a, r, Re, At, m)) {
			break
		}
	}
	// R off by a point of small order
	Rt := R.Add(t)
	decide("mixed order R", pub, m, Sign(a, r, Rt.Enc(), pub, m))
	// small order key: signature valid for about every eighth message, S = r
	encs := Encodings(Torsion[c.Intn(8)])
	e := encs[c.Intn(len(encs))]
	for i := 0; i < 24; i++ {
		msg := c.Bytes(1 + c.Intn(20))
		Re := R.Enc()
		if decide("small order key", e, msg, append(append([]byte{}, Re...), mon.LE(r, 32)...)) {
			break
		}
	}
	// small order R in all encodings with S = ka + ...
	encs = Encodings(Torsion[c.Intn(8)])
	Re := encs[c.Intn(len(encs))]
	decide("small order R", pub, m, Sign(a, big.NewInt(0), Re, pub, m))
	decide("small order both", e, m, append(append([]byte{}, Re...), make([]byte, 32)...))
	// non-canonical encodings of a key with small y
	for y := int64(c.Intn(19)); y < 19; y++ {
		p, ok := ref.EdLift(big.NewInt(y), uint(c.Intn(2)))
		if !ok {
			continue
		}
		for _, enc := range Encodings(p) {
			decide("non-canonical key", enc, m, Sign(a, r, R.Enc(), enc, m))
			decide("non-canonical R", pub, m, Sign(a, r, enc, pub, m))
		}
		break
	}
	decide("random", c.Bytes(32), m, c.Bytes(64))
}

func mutate(c *mon.Ctx, b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) == 0 || c.Intn(12) == 0 {
		return append(o, byte(c.Intn(256)))
	}
	o[c.Intn(len(o))] ^= 1 << uint(c.Intn(8))
	return o
}
