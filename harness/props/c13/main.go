// C13: X25519 and CURVE25519_SHA256 signatures.
package main

import (
	"crypto/ecdh"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/eddsa"

	"owverif/internal/ed"
	"owverif/internal/mon"
	"owverif/internal/ref"
)

const (
	TX = oc.ECC_CURVE_X25519
	TK = oc.ECC_CURVE_CURVE25519_SHA256
)

func decide(c *mon.Ctx, typ uint32, what string, pub, m, sig []byte) bool {
	name, want := "x25519", false
	if typ == TX {
		want = ref.X25519Verify(pub, m, sig)
	} else {
		name, want = "kcdsa", !undefined(pub) && ref.KcdsaVerify(pub, m, sig)
	}
	r := oc.Verify(append([]byte{}, pub...), nil, append([]byte{}, m...), append([]byte{}, sig...), typ)
	if (r == oc.SUCCESS) != want || r != oc.SUCCESS && r != oc.FAILURE {
		c.Failf("%s, %s: verification of %s by %s of %s gives code %x, independently %v", name, what, mon.Hex(sig), mon.Hex(pub), mon.Hex(m), r, want)
	}
	cl := name + "/refused:"
	if want {
		cl = name + "/accepted:"
	}
	c.Seen(cl+what, pub, m, sig)
	return want
}

func isBase(pub []byte) bool { return len(pub) == 32 && pub[0] == 9 && mon.FromLE(pub).BitLen() == 4 }

// baseT2 is the u coordinate of the base point plus the point of order two.
var baseT2 = ref.EdToX(ref.EdBase.Add(ref.Ed{X: big.NewInt(0), Y: new(big.Int).Sub(ref.P25, big.NewInt(1))}).Y)

// undefined tells the three keys for which the scheme's differential additions divide by zero; nothing verifies under them.
func undefined(pub []byte) bool {
	if len(pub) != 32 {
		return false
	}
	u := mon.FromLE(pub)
	u.Mod(u, ref.P25)
	return u.Sign() == 0 || u.Cmp(big.NewInt(9)) == 0 || u.Cmp(baseT2) == 0
}

// coord is a u coordinate: of a point of the group, of small or mixed order, small, near the prime, or any.
func coord(c *mon.Ctx) *big.Int {
	switch c.Intn(6) {
	case 0:
		return c.SmallX(ref.P25)
	case 1:
		return ref.EdToX(ed.Torsion[c.Intn(8)].Y)
	case 2:
		return ref.EdToX(ref.EdMulBase(big.NewInt(int64(1 + c.Intn(9)))).Add(ed.Torsion[c.Intn(8)]).Y)
	case 3:
		return ref.MontU(ref.Mont.MulG(c.Scalar(ref.L25)))
	case 4: // limbs of 26 and 25 bits at their ends
		v, sh := new(big.Int), uint(0)
		for i := 0; i < 10; i++ {
			w := uint(26 - i&1)
			l := []int64{0, 1, 1<<w - 1, 1<<w - 20 + int64(c.Intn(20)), 1 << (w - 1)}[c.Intn(5)]
			if c.Intn(4) == 0 {
				l = int64(c.U64() & (1<<w - 1))
			}
			v.Or(v, new(big.Int).Lsh(big.NewInt(l), sh))
			sh += w
		}
		return v.Mod(v, ref.P25)
	}
	return c.Big(ref.P25)
}

func flip(c *mon.Ctx, b []byte) []byte {
	o := append([]byte{}, b...)
	if len(o) == 0 {
		return []byte{1}
	}
	o[c.Intn(len(o))] ^= 1 << uint(c.Intn(8))
	return o
}

func msg(c *mon.Ctx) []byte {
	n := c.Long(500)
	if n == 0 {
		n = 1
	}
	return c.Bytes(n)
}

func main() {
	red := func(b []byte) *big.Int { v := mon.FromLE(b); return v.Mod(v, ref.L25) }
	mon.Main("C13", []mon.Group{
		{Name: "x25519", Quick: 3000, Thorough: 300000, Classes: []string{"x25519/signed", "x25519/related message", "x25519/sign bit 0", "x25519/sign bit 1", "x25519/accepted:genuine", "x25519/accepted:reference"}, Fn: func(c *mon.Ctx) {
			sk, m := ed.Scalar32(c), msg(c)
			if c.I < 600 {
				m = c.Bytes(c.I + 1)
			}
			a := red(sk)
			A := ref.EdMulBase(a)
			pub, ret := oc.GenPubkey(sk, TX)
			if ret != oc.SUCCESS || string(pub) != string(mon.LE(ref.EdToX(A.Y), 32)) {
				c.Failf("public key of %x: %s code %x", sk, mon.Hex(pub), ret)
			}
			if a.Sign() == 0 {
				return // the identity has no u coordinate
			}
			rnd := c.Bytes(64)
			if c.I >= 600 && c.Intn(8) == 0 {
				m = c.Related(m, sk, pub, A.Enc(), rnd)
				c.Seen("x25519/related message", m)
			}
			mon.SetRand(&fixed{b: rnd})
			sig, _, ret := oc.Signature(sk, nil, m, TX)
			if ret != oc.SUCCESS {
				c.Failf("no signature by %x: code %x", sk, ret)
			}
			c.Eq("signature with known randomness", sig, ref.X25519Sign(sk, m, rnd))
			c.Seen("x25519/signed", sk, m)
			c.Seen("x25519/sign bit "+string(rune('0'+sig[63]>>7)), sk)
			if !decide(c, TX, "genuine", pub, m, sig) {
				c.Failf("the genuine signature %x by %x of %s is refused", sig, sk, mon.Hex(m))
			}
			sig2 := ref.X25519SignWith(a, c.Scalar0(ref.L25), m)
			decide(c, TX, "reference", pub, m, sig2)
			c.Sample("X25519 scalar %x, %d byte message: signature %x", sk, len(m), sig)
		}},
		{Name: "lengths", Quick: 1400, Thorough: 9000, Classes: []string{"every length"}, Fn: func(c *mon.Ctx) {
			// a message of every length, signed by either side, and with one bit changed
			m := c.Bytes(c.Sweep() + 1)
			sk := ed.Scalar32(c)
			for _, t := range []uint32{TX, TK} {
				pub, ret := oc.GenPubkey(sk, t)
				if ret != oc.SUCCESS {
					c.Failf("no public key of %x: %x", sk, ret)
				}
				if isBase(pub) || red(sk).Sign() == 0 {
					continue
				}
				sig, _, ret := oc.Signature(sk, nil, m, t)
				if ret != oc.SUCCESS {
					c.Failf("no signature by %x of %s: %x", sk, mon.Hex(m), ret)
				}
				if !decide(c, t, "genuine", pub, m, sig) {
					c.Failf("the genuine signature %x by %x of %s is refused", sig, sk, mon.Hex(m))
				}
				if t == TK {
					c.Eq("signature", sig, ref.KcdsaSign(sk, m))
				}
				o := append([]byte{}, m...)
				o[c.Intn(len(o))] ^= 1 << uint(c.Intn(8))
				decide(c, t, "mutated", pub, o, sig)
				decide(c, t, "mutated", pub, append(o[:0:0], m[:len(m)-1]...), sig)
			}
			c.Seen("every length", len(m))
		}},
		{Name: "x25519-hostile", Quick: 1500, Thorough: 300000, Classes: []string{"x25519/refused:mutated", "x25519/refused:s out of range", "x25519/refused:length", "x25519/refused:sign bit", "x25519/refused:key off the curve", "x25519/accepted:s plus order", "x25519/refused:other key", "x25519/refused:empty", "x25519/accepted:same u", "x25519/accepted:small order key"}, Fn: func(c *mon.Ctx) {
			sk, m := ed.Scalar32(c), msg(c)
			a := red(sk)
			if a.Sign() == 0 {
				return
			}
			A := ref.EdMulBase(a)
			pub := mon.LE(ref.EdToX(A.Y), 32)
			sig, _, _ := oc.Signature(sk, nil, m, TX)
			decide(c, TX, "genuine", pub, m, sig)
			decide(c, TX, "mutated", pub, m, flip(c, sig))
			decide(c, TX, "mutated", pub, flip(c, m), sig)
			decide(c, TX, "key changed", flip(c, pub), m, sig)
			s := append([]byte{}, sig...)
			s[63] ^= 0x80
			decide(c, TX, "sign bit", pub, m, s)
			sv := mon.FromLE(sig[32:])
			top := sv.Bit(255)
			sv.SetBit(sv, 255, 0)
			for k := int64(1); k < 8; k++ {
				v := new(big.Int).Add(sv, new(big.Int).Mul(ref.L25, big.NewInt(k)))
				if v.BitLen() > 255 {
					continue
				}
				what := "s plus order"
				if v.BitLen() > 253 {
					what = "s out of range"
				}
				v.SetBit(v, 255, top)
				decide(c, TX, what, pub, m, append(append([]byte{}, sig[:32]...), mon.LE(v, 32)...))
			}
			for _, l := range []int{0, 1, 31, 32, 63} {
				decide(c, TX, "length", pub, m, sig[:l])
				if l < 32 {
					decide(c, TX, "length", pub[:l], m, sig)
				}
			}
			decide(c, TX, "length", append(append([]byte{}, pub...), 0), m, sig)
			decide(c, TX, "length", pub, m, append(append([]byte{}, sig...), 0))
			decide(c, TX, "empty", pub, nil, sig)
			decide(c, TX, "empty", pub, []byte{}, sig)
			decide(c, TX, "other key", mon.LE(ref.EdToX(ed.Point(c).Y), 32), m, sig)
			// another encoding of the same u
			p2 := append([]byte{}, pub...)
			p2[31] ^= 0x80
			decide(c, TX, "same u", p2, m, sig)
			for u := c.Big(ref.P25); ; u.Add(u, ed.One) {
				if _, ok := ref.EdLift(ref.XToEdY(u), 0); !ok {
					b := mon.LE(u.Mod(u, ref.P25), 32)
					decide(c, TX, "key off the curve", b, m, sig)
					break
				}
			}
			// keys of small order: s = r
			t := ed.Torsion[c.Intn(8)]
			tu := mon.LE(ref.EdToX(t.Y), 32)
			for i := 0; i < 24; i++ {
				r := c.Scalar0(ref.L25)
				sg := append(ref.EdMulBase(r).Enc(), mon.LE(r, 32)...)
				sg[63] |= byte(c.Intn(2)) << 7
				if decide(c, TX, "small order key", tu, c.Bytes(1+c.Intn(9)), sg) {
					break
				}
			}
			// R not canonical, or off by a point of small order
			r := c.Scalar0(ref.L25)
			decide(c, TX, "mixed order R", pub, m, signR(a, r, ref.EdMulBase(r).Add(ed.Torsion[1+c.Intn(7)]).Enc(), m))
			e := ed.Encodings(ed.Torsion[c.Intn(8)])
			decide(c, TX, "small order R", pub, m, signR(a, big.NewInt(0), e[c.Intn(len(e))], m))
		}},
		{Name: "kcdsa", Quick: 900, Thorough: 100000, Classes: []string{"kcdsa/signed", "kcdsa/accepted:genuine", "kcdsa/accepted:reference"}, Fn: func(c *mon.Ctx) {
			sk, m := ed.Scalar32(c), msg(c)
			if c.I < 300 {
				m = c.Bytes(c.I + 1)
			}
			want, s := ref.KcdsaKeys(sk)
			pub, ret := oc.GenPubkey(sk, TK)
			if ret != oc.SUCCESS || string(pub) != string(want) {
				c.Failf("public key of %x: %s code %x, want %x", sk, mon.Hex(pub), ret, want)
			}
			if isBase(pub) {
				return
			}
			sig, _, ret := oc.Signature(sk, nil, m, TK)
			if ret != oc.SUCCESS {
				c.Failf("no signature by %x: code %x", sk, ret)
			}
			c.Eq("signature", sig, ref.KcdsaSign(sk, m))
			c.Seen("kcdsa/signed", sk, m)
			if !decide(c, TK, "genuine", pub, m, sig) {
				c.Failf("the genuine signature %x by %x of %s is refused", sig, sk, mon.Hex(m))
			}
			decide(c, TK, "reference", pub, m, ref.KcdsaSignWith(s, c.Scalar0(ref.L25), m))
			c.Sample("KCDSA key %x, %d byte message: signature %x", sk, len(m), sig)
		}},
		{Name: "kcdsa-hostile", Quick: 400, Thorough: 60000, Classes: []string{"kcdsa/refused:mutated", "kcdsa/refused:v plus order", "kcdsa/refused:length", "kcdsa/refused:key not canonical", "kcdsa/refused:other key", "kcdsa/refused:empty", "kcdsa/refused:negated", "kcdsa/refused:forged", "kcdsa/refused:key without a meaning", "kcdsa/accepted:mixed order key", "kcdsa/refused:mixed order key"}, Fn: func(c *mon.Ctx) {
			sk, m := ed.Scalar32(c), msg(c)
			pub, s := ref.KcdsaKeys(sk)
			if isBase(pub) {
				return
			}
			sig, _, _ := oc.Signature(sk, nil, m, TK)
			decide(c, TK, "genuine", pub, m, sig)
			decide(c, TK, "mutated", pub, m, flip(c, sig))
			decide(c, TK, "mutated", pub, m, flip(c, sig))
			decide(c, TK, "mutated", pub, flip(c, m), sig)
			decide(c, TK, "mutated", flip(c, pub), m, sig)
			v := mon.FromLE(sig[:32])
			for k := int64(1); k < 16; k += 1 + int64(c.Intn(5)) {
				w := new(big.Int).Add(v, new(big.Int).Mul(ref.L25, big.NewInt(k)))
				if w.BitLen() <= 256 {
					decide(c, TK, "v plus order", pub, m, append(mon.LE(w, 32), sig[32:]...))
				}
			}
			w := new(big.Int).Sub(ref.L25, v)
			decide(c, TK, "negated", pub, m, append(mon.LE(w, 32), sig[32:]...))
			sm := new(big.Int).Sub(ref.L25, s)
			decide(c, TK, "negated", pub, m, ref.KcdsaSignWith(sm, c.Scalar(ref.L25), m))
			for _, l := range []int{0, 1, 31, 32, 63} {
				decide(c, TK, "length", pub, m, sig[:l])
				if l < 32 {
					decide(c, TK, "length", pub[:l], m, sig)
				}
			}
			decide(c, TK, "length", append(append([]byte{}, pub...), 0), m, sig)
			decide(c, TK, "length", pub, m, append(append([]byte{}, sig...), 0))
			decide(c, TK, "empty", pub, nil, sig)
			decide(c, TK, "empty", pub, []byte{}, sig)
			o, _ := ref.KcdsaKeys(ed.Scalar32(c))
			if string(o) != string(pub) {
				decide(c, TK, "other key", o, m, sig)
			}
			p2 := append([]byte{}, pub...)
			p2[31] ^= 0x80
			decide(c, TK, "key not canonical", p2, m, sig)
			b := mon.LE(new(big.Int).Add(ref.P25, big.NewInt(int64(c.Intn(19)))), 32)
			decide(c, TK, "key not canonical", b, m, sig)
			forge(c, b, m)
			forge(c, mon.LE(coord(c), 32), m)
			for _, u := range []*big.Int{big.NewInt(0), big.NewInt(9), baseT2} {
				b := mon.LE(u, 32)
				forge(c, b, m)
				decide(c, TK, "key without a meaning", b, m, sig)
			}
			// a key with a component of small order: accepted when v kills it
			if P, ok := ref.MontLift(ref.EdToX(ed.Torsion[1+c.Intn(7)].Y), uint(c.Intn(2))); ok {
				P = ref.Mont.Add(P, ref.Mont.MulG(new(big.Int).ModInverse(s, ref.L25)))
				b := mon.LE(ref.MontU(P), 32)
				si := s
				if P.Y.Bit(0) == 1 {
					si = sm
				}
				for i := 0; i < 12; i++ {
					if decide(c, TK, "mixed order key", b, m, ref.KcdsaSignWith(si, c.Scalar0(ref.L25), m)) {
						break
					}
				}
			}
			swapped := append(append([]byte{}, sig[32:]...), sig[:32]...)
			decide(c, TK, "mutated", pub, m, swapped)
		}},
		{Name: "exported", Quick: 1500, Thorough: 200000, Classes: []string{"keygen", "sign", "verify", "verify:undefined", "curve:on the curve", "curve:clamped", "canonical key", "key not canonical", "canonical v", "v not canonical"}, Fn: func(c *mon.Ctx) {
			// the parts of the scheme that the package exports
			k := ed.Scalar32(c)
			wantP, wantS := ref.KcdsaKeys(k)
			P, s, kc := make([]byte, 32), make([]byte, 32), append([]byte{}, k...)
			eddsa.Keygen(P, s, kc)
			c.Eq("Keygen: public key", P, wantP)
			if isBase(P) {
				copy(s, mon.LE(wantS, 32)) // of no use: nothing verifies under the base point
			}
			c.Eq("Keygen: signing key", s, mon.LE(wantS, 32))
			P2 := make([]byte, 32)
			eddsa.Keygen(P2, nil, kc)
			c.Eq("Keygen: public key alone", P2, wantP)
			c.Seen("keygen", k)

			v, h, x := make([]byte, 32), ed.Scalar32(c), ed.Scalar32(c)
			if c.Intn(16) == 0 {
				copy(x, h)
			}
			h0, x0 := append([]byte{}, h...), append([]byte{}, x...)
			nz := eddsa.Sign(v, h, x, s)
			w := new(big.Int).Sub(mon.FromLE(x0), mon.FromLE(h0))
			w.Mul(w, wantS).Mod(w, ref.L25)
			c.Eq("Sign", v, mon.LE(w, 32))
			if nz != (w.Sign() != 0) {
				c.Failf("Sign(%x, %x, %x) = %x reports %v", h0, x0, s, v, nz)
			}
			c.Seen("sign", h0, x0, s)

			u := coord(c)
			ub := mon.LE(u, 32)
			if p, ok := ref.MontLift(u, 0); ok {
				v, h, Y := ed.Scalar32(c), ed.Scalar32(c), make([]byte, 32)
				ok := eddsa.Verify(Y, append([]byte{}, v...), append([]byte{}, h...), append([]byte{}, ub...))
				if ok == undefined(ub) {
					c.Failf("Verify under the key %x reports %v", ub, ok)
				}
				if ok {
					want := ref.MontU(ref.Mont.Add(ref.Mont.Mul(p, mon.FromLE(v)), ref.Mont.MulG(mon.FromLE(h))))
					if string(Y) != string(mon.LE(want, 32)) {
						c.Failf("Verify(%x, %x, %x) gives %x, want %x", v, h, ub, Y, mon.LE(want, 32))
					}
					c.Seen("verify", v, h, ub)
				} else {
					c.Seen("verify:undefined", ub)
				}
				k := ed.Scalar32(c)
				eddsa.Curve(Y, k, ub)
				c.Eq("Curve", Y, mon.LE(ref.MontU(ref.Mont.Mul(p, mon.FromLE(k))), 32))
				c.Seen("curve:on the curve", k, ub)
			}
			if u.Sign() != 0 {
				Z := make([]byte, 32)
				sk, _ := ecdh.X25519().NewPrivateKey(kc)
				pk, _ := ecdh.X25519().NewPublicKey(ub)
				want, err := sk.ECDH(pk)
				if err != nil {
					want = make([]byte, 32)
				}
				eddsa.Curve(Z, kc, ub)
				c.Eq("Curve", Z, want)
				c.Seen("curve:clamped", kc, ub)
			}

			// canonical forms
			switch c.Intn(3) {
			case 0:
				w := new(big.Int).Add(ref.P25, big.NewInt(int64(c.Intn(24)-4)))
				ub = mon.LE(w, 32)
			case 1:
				ub = c.Bytes(32)
			}
			canon := mon.FromLE(ub).Cmp(ref.P25) < 0
			if eddsa.IsCanonicalPublicKey(ub) != canon {
				c.Failf("IsCanonicalPublicKey(%x) is not %v", ub, canon)
			}
			if canon {
				c.Seen("canonical key", ub)
			} else {
				c.Seen("key not canonical", ub)
			}
			sv := ed.Scalar32(c)
			canon = mon.FromLE(sv).Cmp(ref.L25) < 0
			if eddsa.IsCanonicalSignature(append(append([]byte{}, sv...), c.Bytes(32)...)) != canon {
				c.Failf("IsCanonicalSignature(%x...) is not %v", sv, canon)
			}
			if canon {
				c.Seen("canonical v", sv)
			} else {
				c.Seen("v not canonical", sv)
			}
		}},
		{Name: "refused", Quick: 200, Thorough: 4000, Classes: []string{"refused:key"}, Fn: func(c *mon.Ctx) {
			for _, t := range []uint32{TX, TK} {
				for _, b := range [][]byte{nil, {}, c.Bytes(31), c.Bytes(33), c.Bytes(64)} {
					pub, ret := oc.GenPubkey(b, t)
					sig, _, ret2 := oc.Signature(b, nil, c.Bytes(10), t)
					if pub != nil || sig != nil || ret == oc.SUCCESS || ret2 == oc.SUCCESS {
						c.Failf("type %x: a private key of %d bytes is accepted", t, len(b))
					}
					c.Seen("refused:key", t, b)
				}
			}
		}},
	})
}

// forge makes signatures whose hash is right if verification arrives at a degenerate point.
func forge(c *mon.Ctx, pub, m []byte) {
	for _, y := range []int64{0, 1, 9} {
		h := ref.S256(append(append([]byte{}, ref.S256(m)...), mon.LE(big.NewInt(y), 32)...))
		decide(c, TK, "forged", pub, m, append(mon.LE(c.Scalar0(ref.L25), 32), h...))
	}
}

func signR(a, r *big.Int, R, m []byte) []byte {
	edpub := ref.EdMulBase(a).Enc()
	sig := ed.Sign(a, r, R, edpub, m)
	sig[63] |= edpub[31] & 0x80
	return sig
}

// fixed gives the known bytes first, and then the same again.
type fixed struct {
	b []byte
	i int
}

func (f *fixed) Read(p []byte) (int, error) {
	for k := range p {
		p[k] = f.b[f.i%len(f.b)]
		f.i++
	}
	return len(p), nil
}
