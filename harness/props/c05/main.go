// C05: SM2 encryption round-trips, matches the standard and authenticates.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

const T = oc.ECC_CURVE_SM2_STANDARD

func plain(c *mon.Ctx) []byte {
	n := 1 + c.Len(700)
	switch c.Intn(5) {
	case 0:
		n = 1 + c.Intn(5)
	case 1:
		n = 32*(1+c.Intn(6)) + c.Intn(3) - 1
	}
	switch c.Intn(6) {
	case 0:
		return make([]byte, n)
	}
	return c.Bytes(n)
}

// key is a decryption key; n-1 is legal here.
func key(c *mon.Ctx) (*big.Int, []byte, ref.Pt) {
	if c.Intn(8) == 0 {
		d, q := sw.SM2.SpecialKey(c)
		return d, sw.B32(d), q
	}
	d := c.Scalar(ref.SM2.N)
	return d, sw.B32(d), ref.SM2.MulG(d)
}

func enc(c *mon.Ctx, q ref.Pt, p []byte) []byte {
	ct, ret := oc.Encryption(q.Enc(), p, T)
	if ret != oc.SUCCESS {
		c.Failf("encryption of %s for %x fails with %x", mon.Hex(p), q.Enc(), ret)
	}
	return ct
}

// decide runs one decryption and compares it with the reference; the ciphertext need not be legal.
func decide(c *mon.Ctx, what string, d *big.Int, ct []byte) {
	want, ok := ref.SM2Decrypt(d, ct)
	got, ret := oc.Decryption(sw.B32(d), ct, T)
	if ok {
		if ret != oc.SUCCESS || string(got) != string(want) {
			c.Failf("%s: decryption of %s with %x gives %s code %x, want %s", what, mon.Hex(ct), sw.B32(d), mon.Hex(got), ret, mon.Hex(want))
		}
		c.Seen("decrypted:"+what, d, ct)
		return
	}
	if ret == oc.SUCCESS || got != nil {
		c.Failf("%s: decryption of %s with %x gives %s code %x, must fail without a plaintext", what, mon.Hex(ct), sw.B32(d), mon.Hex(got), ret)
	}
	if ret != oc.FAILURE && ret != oc.MESSAGE_ILLEGAL {
		c.Failf("%s: decryption of %s fails with code %x", what, mon.Hex(ct), ret)
	}
	c.Seen("refused:"+what, d, ct)
}

func main() {
	mon.Main("C05", []mon.Group{
		{Name: "round-trip", Quick: 2400, Thorough: 120000, Classes: []string{"encrypted", "decrypted", "leading-zero", "related plaintext"}, Fn: func(c *mon.Ctx) {
			d, db, q := key(c)
			p := plain(c)
			if c.I < 200 {
				p = c.Bytes(c.I + 1)
			}
			if c.I >= 200 && c.Intn(8) == 0 {
				e := q.Enc()
				p = c.Related(p, e, e[:32], e[32:], append([]byte{4}, e...), db, enc(c, q, p))
				c.Seen("related plaintext", p)
			}
			ct := enc(c, q, p)
			if len(ct) != 97+len(p) || ct[0] != 4 {
				c.Failf("ciphertext of %d bytes for %d, first byte %x", len(ct), len(p), ct[0])
			}
			got, ok := ref.SM2Decrypt(d, ct)
			if !ok || string(got) != string(p) {
				c.Failf("an independent implementation decrypts %s with %x to %s (%v), the plaintext is %s", mon.Hex(ct), db, mon.Hex(got), ok, mon.Hex(p))
			}
			c.Seen("encrypted", db, p)
			back, ret := oc.Decryption(db, ct, T)
			if ret != oc.SUCCESS || string(back) != string(p) {
				c.Failf("decryption with %x of %s gives %s code %x, want %s", db, mon.Hex(ct), mon.Hex(back), ret, mon.Hex(p))
			}
			c.Seen("decrypted", db, p)
			kp := ref.SM2.Mul(ref.Dec(ct[1:65]), d)
			if kp.X.BitLen() <= 248 || kp.Y.BitLen() <= 248 || ref.Dec(ct[1:65]).X.BitLen() <= 248 || ref.Dec(ct[1:65]).Y.BitLen() <= 248 {
				c.Seen("leading-zero", db, ct)
			}
			again := enc(c, q, p)
			if string(again[1:65]) == string(ct[1:65]) {
				c.Failf("two encryptions use the same random point %x", ct[1:65])
			}
			c.Sample("%d byte plaintext for key %x: ciphertext %s, decrypted by both sides", len(p), db, mon.Hex(ct))
		}},
		{Name: "lengths", Quick: 1400, Thorough: 9000, Classes: []string{"every length"}, Fn: func(c *mon.Ctx) {
			d, db, q := key(c)
			p := c.Bytes(c.Sweep() + 1)
			got, ok := ref.SM2Decrypt(d, enc(c, q, p))
			if !ok || string(got) != string(p) {
				c.Failf("an independent implementation decrypts the encryption of %s for %x to %s (%v)", mon.Hex(p), db, mon.Hex(got), ok)
			}
			ct := ref.SM2Encrypt(q.Enc(), c.Scalar(ref.SM2.N), p)
			back, ret := oc.Decryption(db, ct, T)
			if ret != oc.SUCCESS || string(back) != string(p) {
				c.Failf("decryption with %x of %s gives %s code %x, want %s", db, mon.Hex(ct), mon.Hex(back), ret, mon.Hex(p))
			}
			// the last byte is under the tag, and so is the length
			ct[len(ct)-1] ^= 1 << uint(c.Intn(8))
			decide(c, "last byte", d, ct)
			decide(c, "one byte less", d, ct[:len(ct)-1])
			c.Seen("every length", len(p))
		}},
		{Name: "from-reference", Quick: 1600, Thorough: 80000, Classes: []string{"decrypted:reference", "decrypted:special-k"}, Fn: func(c *mon.Ctx) {
			d, _, q := key(c)
			p := plain(c)
			k := sw.SM2.Scalar(c)
			ct := ref.SM2Encrypt(q.Enc(), k, p)
			what := "reference"
			if k.BitLen() < 200 {
				what = "special-k"
			}
			if ct == nil {
				return
			}
			decide(c, what, d, ct)
		}},
		{Name: "special-shared", Quick: 300, Thorough: 8000, Classes: []string{"decrypted:chosen-shared"}, Fn: func(c *mon.Ctx) {
			// the shared point has a chosen x, so that it has leading zero bytes or ends near the prime
			d, _, q := key(c)
			kp := sw.SM2.LiftNear(c, c.SmallX(ref.SM2.P))
			if c.Bool() {
				kp = sw.SM2.SpecialY(c)
			}
			c1 := ref.SM2.Mul(kp, new(big.Int).ModInverse(d, ref.SM2.N))
			p := plain(c)
			t := ref.KDF(kp.Enc(), len(p))
			zero := true
			c2 := make([]byte, len(p))
			for i := range p {
				c2[i] = p[i] ^ t[i]
				zero = zero && t[i] == 0
			}
			if zero {
				return
			}
			c3 := ref.SM3(append(append(append([]byte{}, kp.Enc()[:32]...), p...), kp.Enc()[32:]...))
			ct := append(append(append([]byte{4}, c1.Enc()...), c3...), c2...)
			decide(c, "chosen-shared", d, ct)
			_ = q
		}},
		{Name: "zero-prefix", Quick: 160, Thorough: 4000, Classes: []string{"decrypted:zero-prefix", "refused:zero-prefix"}, Fn: func(c *mon.Ctx) {
			// the key stream begins with zero bytes but is not all zero: only a stream of nothing but zeros is refused
			var kp ref.Pt
			zeros := 1 + c.I%3
			if zeros == 1 {
				k := c.Scalar(ref.SM2.N)
				kp = ref.SM2.MulG(k)
				for ref.KDF(kp.Enc(), 1)[0] != 0 {
					kp = ref.SM2.Add(kp, ref.SM2.G)
				}
			} else {
				l := zeroPrefix[zeros]
				kp = ref.SM2.MulG(big.NewInt(l[c.Intn(len(l))]))
			}
			d, _, _ := key(c)
			c1 := ref.SM2.Mul(kp, new(big.Int).ModInverse(d, ref.SM2.N))
			n := zeros + c.Intn(3)
			if c.Intn(3) == 0 {
				n = zeros + c.Len(200)
			}
			p := c.Bytes(n)
			t := ref.KDF(kp.Enc(), n)
			c2 := make([]byte, n)
			for i := range p {
				c2[i] = p[i] ^ t[i]
			}
			for i := 0; i < zeros; i++ {
				if t[i] != 0 {
					panic("the reference stream does not begin with zeros")
				}
			}
			c3 := ref.SM3(append(append(append([]byte{}, kp.Enc()[:32]...), p...), kp.Enc()[32:]...))
			decide(c, "zero-prefix", d, append(append(append([]byte{4}, c1.Enc()...), c3...), c2...))
		}},
		{Name: "zero-prefix-encrypted", Quick: 32, Thorough: 1000, Classes: []string{"encrypted:zero-prefix"}, Fn: func(c *mon.Ctx) {
			// a key chosen, for the random point the stream of randomness leads to, so that the key stream begins with zeros
			_, _, q0 := key(c)
			seed := "zero" + string(c.Bytes(8))
			mon.SetRand(mon.NewRand(seed))
			ct0 := enc(c, q0, []byte{1, 2, 3, 4, 5, 6, 7, 8})
			c1 := ref.Pt{X: new(big.Int).SetBytes(ct0[1:33]), Y: new(big.Int).SetBytes(ct0[33:65])}
			d := c.Scalar(ref.SM2.N)
			kp := ref.SM2.Mul(c1, d)
			for {
				if t := ref.KDF(kp.Enc(), 2); t[0] == 0 && (t[1] == 0 || c.I%8 != 0) {
					break
				}
				kp = ref.SM2.Add(kp, c1)
				d.Add(d, big.NewInt(1))
			}
			d.Mod(d, ref.SM2.N)
			n := 1 + c.Intn(4)
			if c.Bool() {
				n = 1 + c.Len(200)
			}
			p := c.Bytes(n)
			mon.SetRand(mon.NewRand(seed))
			ct := enc(c, ref.SM2.MulG(d), p)
			got, ok := ref.SM2Decrypt(d, ct)
			if !ok || string(got) != string(p) {
				c.Failf("encryption of %x for the key of %x gives %x, which the reference decrypts to %x", p, d, ct, got)
			}
			if string(ct[:65]) == string(ct0[:65]) {
				c.Seen("encrypted:zero-prefix", ct)
			}
		}},
		{Name: "chosen-random", Quick: 300, Thorough: 8000, Classes: []string{"encrypted:chosen-shared"}, Fn: func(c *mon.Ctx) {
			// a public key for which k (known from the first encryption) gives a chosen shared point
			_, _, q0 := key(c)
			saved := mon.NewRand("k" + string(c.Bytes(8)))
			mon.SetRand(mon.NewRand("same"))
			ct0 := enc(c, q0, []byte{1, 2, 3, 4, 5, 6, 7, 8})
			_ = saved
			// the first random point is the same for the same stream, whatever the key
			mon.SetRand(mon.NewRand("same"))
			p := plain(c)
			_, _, q1 := key(c)
			ct1 := enc(c, q1, p)
			if string(ct0[:65]) != string(ct1[:65]) && len(p) > 4 {
				c.Failf("the random point depends on more than the source of randomness")
			}
			c.Seen("encrypted:chosen-shared", ct1)
		}},
		{Name: "every-byte", Quick: 24, Thorough: 600, Classes: []string{"refused:flip", "refused:truncated", "refused:extended"}, Fn: func(c *mon.Ctx) {
			// every bit of C3 and C2 and every byte of C1, every truncation
			d, _, q := key(c)
			p := c.Bytes(1 + c.Intn(40))
			ct := enc(c, q, p)
			for i := range ct {
				o := append([]byte{}, ct...)
				o[i] ^= 1 << uint(c.Intn(8))
				decide(c, "flip", d, o)
				decide(c, "truncated", d, ct[:i])
			}
			for n := 1; n < 4; n++ {
				decide(c, "extended", d, append(append([]byte{}, ct...), c.Bytes(n)...))
				decide(c, "extended", d, append(append([]byte{}, ct...), make([]byte, n*32)...))
				decide(c, "extended", d, append(c.Bytes(n), ct...))
			}
		}},
		{Name: "tampered", Quick: 1200, Thorough: 60000, Classes: []string{"refused:mutated", "refused:other-key", "refused:negated", "refused:swapped-order", "refused:prefix", "refused:not-reduced"}, Fn: func(c *mon.Ctx) {
			d, db, q := key(c)
			p := plain(c)
			ct := enc(c, q, p)
			decide(c, "mutated", d, sw.Mutate(c, ct))
			decide(c, "mutated", d, sw.Mutate(c, ct))
			d2, _, _ := key(c)
			if d2.Cmp(d) != 0 {
				decide(c, "other-key", d2, ct)
			}
			// C1 negated, C1C2C3 order, other prefixes, coordinates plus p
			c1 := ref.Dec(ct[1:65])
			neg := append([]byte{4}, ref.SM2.Neg(c1).Enc()...)
			decide(c, "negated", d, append(neg, ct[65:]...))
			if len(p) != 32 {
				decide(c, "swapped-order", d, append(append(append([]byte{}, ct[:65]...), ct[97:]...), ct[65:97]...))
			}
			for _, b := range []byte{0, 2, 3, 5, 6, 7, 0x84} {
				o := append([]byte{}, ct...)
				o[0] = b
				decide(c, "prefix", d, o)
			}
			decide(c, "prefix", d, ct[1:])
			z := append([]byte{4}, make([]byte, 64)...)
			decide(c, "mutated", d, append(z, ct[65:]...))
			// coordinates that are not reduced: a point with small x, so that x+p fits in 32 bytes
			sp := sw.SM2.LiftNear(c, big.NewInt(int64(c.Intn(1000))))
			kp := ref.SM2.Mul(sp, d)
			t := ref.KDF(kp.Enc(), len(p))
			c2 := make([]byte, len(p))
			for i := range p {
				c2[i] = p[i] ^ t[i]
			}
			c3 := ref.SM3(append(append(append([]byte{}, kp.Enc()[:32]...), p...), kp.Enc()[32:]...))
			x := new(big.Int).Add(sp.X, ref.SM2.P)
			o := append(append([]byte{4}, sw.B32(x)...), sw.B32(sp.Y)...)
			decide(c, "not-reduced", d, append(append(o, c3...), c2...))
			// a point of another curve with the same coefficient a, and a ciphertext made consistently for it
			bad := ref.Pt{X: c.Big(ref.SM2.P), Y: c.Big(ref.SM2.P)}
			bk := ref.SM2.Mul(bad, d)
			if !bk.Inf() {
				t = ref.KDF(bk.Enc(), len(p))
				for i := range p {
					c2[i] = p[i] ^ t[i]
				}
				c3 = ref.SM3(append(append(append([]byte{}, bk.Enc()[:32]...), p...), bk.Enc()[32:]...))
				decide(c, "mutated", d, append(append(append([]byte{4}, bad.Enc()...), c3...), c2...))
			}
			_ = db
		}},
		{Name: "refused", Quick: 400, Thorough: 20000, Classes: []string{"public-key-refused", "private-key-refused", "empty-refused"}, Fn: func(c *mon.Ctx) {
			_, db, q := key(c)
			p := plain(c)
			ct := enc(c, q, p)
			badpub := [][]byte{nil, {}, q.Enc()[:63], append(q.Enc(), 0), append([]byte{4}, q.Enc()...), q.Enc33(), make([]byte, 64), c.Bytes(64),
				append(sw.B32(q.Y), sw.B32(q.X)...), append(sw.B32(ref.SM2.P), q.Enc()[32:]...)}
			sp := sw.SM2.LiftNear(c, big.NewInt(int64(c.Intn(1000))))
			badpub = append(badpub, append(sw.B32(new(big.Int).Add(sp.X, ref.SM2.P)), sw.B32(sp.Y)...))
			o := q.Enc()
			o[c.Intn(64)] ^= 1 << uint(c.Intn(8))
			badpub = append(badpub, o)
			badpub = append(badpub, ref.K1.MulG(c.Scalar(ref.K1.N)).Enc(), ref.R1.MulG(c.Scalar(ref.R1.N)).Enc())
			for _, b := range badpub {
				got, ret := oc.Encryption(b, p, T)
				if got != nil || ret != oc.ECC_PUBKEY_ILLEGAL {
					c.Failf("encryption for %s gives %s code %x", mon.Hex(b), mon.Hex(got), ret)
				}
				c.Seen("public-key-refused", b)
			}
			n := ref.SM2.N
			for _, b := range [][]byte{nil, {}, db[:31], append([]byte{0}, db...), make([]byte, 32), sw.B32(n), sw.B32(new(big.Int).Add(n, sw.One)), sw.B32(new(big.Int).Sub(sw.Two256, sw.One)),
				sw.B32(new(big.Int).Add(n, c.Big(new(big.Int).Sub(sw.Two256, n))))} {
				got, ret := oc.Decryption(b, ct, T)
				if got != nil || ret != oc.ECC_PRIKEY_ILLEGAL {
					c.Failf("decryption with %s gives %s code %x", mon.Hex(b), mon.Hex(got), ret)
				}
				c.Seen("private-key-refused", b)
			}
			for _, b := range [][]byte{nil, {}} {
				got, ret := oc.Encryption(q.Enc(), b, T)
				if got != nil || ret != oc.MESSAGE_ILLEGAL {
					c.Failf("encryption of nothing gives %s code %x", mon.Hex(got), ret)
				}
				got, ret = oc.Decryption(db, b, T)
				if got != nil || ret != oc.MESSAGE_ILLEGAL {
					c.Failf("decryption of nothing gives %s code %x", mon.Hex(got), ret)
				}
				c.Seen("empty-refused", q.Enc())
			}
		}},
		{Name: "long", Quick: 8, Thorough: 200, Classes: []string{"long"}, Fn: func(c *mon.Ctx) {
			// more than 255 blocks of the key derivation
			d, db, q := key(c)
			p := c.Bytes(8000 + c.Intn(80000))
			ct := enc(c, q, p)
			got, ok := ref.SM2Decrypt(d, ct)
			if !ok || string(got) != string(p) {
				c.Failf("an independent implementation does not decrypt the encryption of %d bytes", len(p))
			}
			back, ret := oc.Decryption(db, ct, T)
			if ret != oc.SUCCESS || string(back) != string(p) {
				c.Failf("decryption of %d bytes gives code %x", len(p), ret)
			}
			k := c.Intn(len(ct))
			ct[k] ^= 1 << uint(c.Intn(8))
			decide(c, "long-flip", d, ct)
			c.Seen("long", p)
		}},
		{Name: "very-long", Quick: 2, Thorough: 24, Classes: []string{"very-long"}, Fn: func(c *mon.Ctx) {
			// more than 65535 blocks of the key derivation
			d, db, q := key(c)
			p := c.Bytes(65536*32 + 1 + c.Intn(100))
			ct := enc(c, q, p)
			got, ok := ref.SM2Decrypt(d, ct)
			if !ok || string(got) != string(p) {
				c.Failf("an independent implementation does not decrypt the encryption of %d bytes with %x", len(p), db)
			}
			back, ret := oc.Decryption(db, ref.SM2Encrypt(q.Enc(), c.Scalar(ref.SM2.N), p), T)
			if ret != oc.SUCCESS || string(back) != string(p) {
				c.Failf("decryption of %d bytes with %x gives code %x", len(p), db, ret)
			}
			c.Seen("very-long", p)
		}},
		{Name: "one-byte", Quick: 6, Thorough: 60, Classes: []string{"zero-kdf-avoided"}, Fn: func(c *mon.Ctx) {
			// one byte messages: every 256th key stream is zero and must be drawn again
			d, db, q := key(c)
			p := []byte{byte(c.Intn(256))}
			n := 200
			for i := 0; i < n; i++ {
				ct := enc(c, q, p)
				if ct[97] == p[0] {
					c.Failf("the key stream of %x for key %x is zero", ct, db)
				}
				got, ok := ref.SM2Decrypt(d, ct)
				if !ok || string(got) != string(p) {
					c.Failf("an independent implementation does not decrypt %x with %x", ct, db)
				}
				c.Seen("zero-kdf-avoided", ct)
			}
		}},
	})
}
