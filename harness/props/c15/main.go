// C15: BLS signatures.
package main

import (
	"bytes"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"
	root "github.com/blocktree/go-owcrypt/bls12_381"

	"owverif/internal/bl"
	"owverif/internal/mon"
)

var types = []uint32{oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG}

func key(c *mon.Ctx) (*big.Int, []byte, []byte) {
	k := c.Scalar(bl.R)
	return k, mon.B32(k, 32), bl.G1.Comp(bl.G1.MulG(k))
}

func message(c *mon.Ctx) []byte {
	m := c.Bytes(c.Long(200))
	switch c.Intn(8) {
	case 0: // looks like a tagged message
		m = append([]byte([]string{bl.NUL, bl.AUG}[c.Intn(2)]), m...)
	case 1:
		m = c.Bytes(1)
	case 2:
		m = []byte{}
	case 3:
		m = nil
	}
	return m
}

// verify compares the library's decision on a signature with the expected one, through both interfaces.
func verify(c *mon.Ctx, what string, pub, msg, sig []byte, aug int, want bool) {
	p0, m0, s0 := append([]byte{}, pub...), append([]byte{}, msg...), append([]byte{}, sig...)
	ret := oc.Verify(pub, nil, msg, sig, types[aug])
	if ret != oc.SUCCESS && ret != oc.FAILURE || (ret == oc.SUCCESS) != want {
		c.Failf("%s: Verify of key %x, message %x, signature %x in scheme %d is %x", what, pub, msg, sig, aug, ret)
	}
	tagged := append([]byte(bl.NUL), msg...)
	if aug == 1 {
		tagged = append(append([]byte(bl.AUG), pub...), msg...)
	}
	if got := root.Verify(pub, tagged, sig); got != want {
		c.Failf("%s: bls12_381.Verify of key %x, message %x, signature %x is %v", what, pub, tagged, sig, got)
	}
	if !bytes.Equal(p0, pub) || !bytes.Equal(m0, msg) || !bytes.Equal(s0, sig) {
		c.Failf("%s: Verify changed an argument", what)
	}
	if want {
		c.Seen("accepted", pub, msg, sig)
	} else {
		c.Seen("refused/"+what, pub, msg, sig, aug)
	}
}

func sign(c *mon.Ctx) {
	k, kb, pub := key(c)
	msg := message(c)
	if c.I < 400 {
		msg = c.Bytes(c.I / 2)
	} else if c.Intn(4) == 0 { // the message begins, ends or is a value of the call
		msg = c.Related(msg, pub, pub, kb, []byte(bl.NUL), []byte(bl.AUG), append([]byte(bl.AUG), pub...), bl.G2.Comp(bl.SignPoint(k, pub, msg, true)))
		c.Seen("related message", msg)
	}
	aug := c.I % 2
	sig, v, ret := oc.Signature(kb, nil, msg, types[aug])
	if ret != oc.SUCCESS || v != 0 {
		c.Failf("Signature with key %x of %x: code %x, v %d", kb, msg, ret, v)
	}
	want := bl.G2.Comp(bl.SignPoint(k, pub, msg, aug == 1))
	c.Eq("signature with key "+mon.Hex(kb)+" of "+mon.Hex(msg), sig, want)
	tagged := append([]byte(bl.NUL), msg...)
	if aug == 1 {
		tagged = append(append([]byte(bl.AUG), pub...), msg...)
	}
	s2, err := root.Sign(kb, tagged)
	if err != nil {
		c.Failf("bls12_381.Sign: %v", err)
	}
	c.Eq("bls12_381.Sign", s2, want)
	c.Seen("signed", kb, msg, aug)
	if len(msg) == 0 {
		c.Seen("empty message", kb, aug)
	}
	got, ret := oc.GenPubkey(kb, types[aug])
	if ret != oc.SUCCESS {
		c.Failf("GenPubkey of %x: %x", kb, ret)
	}
	c.Eq("public key", got, pub)
	verify(c, "genuine", pub, msg, sig, aug, true)
	verify(c, "other scheme", pub, msg, sig, 1-aug, false)
	c.Sample("scheme %d, key %x, message of %d bytes", aug, kb, len(msg))
}

func hostile(c *mon.Ctx) {
	k, _, pub := key(c)
	msg := message(c)
	aug := c.Intn(2)
	S := bl.SignPoint(k, pub, msg, aug == 1)
	sig := bl.G2.Comp(S)
	P := bl.G1.MulG(k)
	switch c.I % 19 {
	case 0:
		if len(msg) == 0 {
			return
		}
		m := append([]byte{}, msg...)
		m[c.Intn(len(m))] ^= 1 << uint(c.Intn(8))
		verify(c, "changed message", pub, m, sig, aug, false)
	case 1:
		m := append(append([]byte{}, msg...), 0)
		verify(c, "longer message", pub, m, sig, aug, false)
		if len(msg) > 0 {
			verify(c, "shorter message", pub, msg[:len(msg)-1], sig, aug, false)
			verify(c, "shorter message", pub, msg[1:], sig, aug, false)
		}
	case 2:
		b := append([]byte{}, sig...)
		b[c.Intn(96)] ^= 1 << uint(c.Intn(8))
		verify(c, "changed signature", pub, msg, b, aug, false)
	case 3:
		b := append([]byte{}, pub...)
		b[c.Intn(48)] ^= 1 << uint(c.Intn(8))
		verify(c, "changed key", b, msg, sig, aug, false)
	case 4:
		verify(c, "opposite signature", pub, msg, bl.G2.Comp(bl.G2.Neg(S)), aug, false)
		verify(c, "opposite key", bl.G1.Comp(bl.G1.Neg(P)), msg, sig, aug, false)
		// the opposites of both: genuine for the basic scheme only
		verify(c, "opposite key and signature", bl.G1.Comp(bl.G1.Neg(P)), msg, bl.G2.Comp(bl.G2.Neg(S)), aug, aug == 0)
	case 5: // signature outside of the subgroup: the pairing equation cannot see it
		verify(c, "signature with a torsion part", pub, msg, bl.G2.Comp(bl.G2.Add(S, bl.Off2(c.Intn(300)))), aug, false)
	case 6:
		Q := bl.G1.Add(P, bl.Off1(c.Intn(300)))
		q := bl.G1.Comp(Q)
		verify(c, "key with a torsion part", q, msg, sig, aug, false)
		verify(c, "key with a torsion part", q, msg, bl.G2.Comp(bl.SignPoint(k, q, msg, aug == 1)), aug, false)
	case 7: // the identity
		verify(c, "identity signature", pub, msg, bl.G2.Comp(bl.P2{Inf: true}), aug, false)
		verify(c, "identity key", bl.G1.Comp(bl.P1{Inf: true}), msg, sig, aug, false)
		verify(c, "identity key and signature", bl.G1.Comp(bl.P1{Inf: true}), msg, bl.G2.Comp(bl.P2{Inf: true}), aug, false)
		q := bl.Off1(c.Intn(300))
		verify(c, "small key and identity signature", bl.G1.Comp(q), msg, bl.G2.Comp(bl.P2{Inf: true}), aug, false)
	case 8: // lengths
		for _, n := range []int{0, 1, 47, 95} {
			if n < 48 {
				verify(c, "short key", pub[:n], msg, sig, aug, false)
			}
			verify(c, "short signature", pub, msg, sig[:n], aug, false)
		}
		verify(c, "long key", append(append([]byte{}, pub...), byte(c.Intn(256))), msg, sig, aug, false)
		verify(c, "long signature", pub, msg, append(append([]byte{}, sig...), byte(c.Intn(256))), aug, false)
		verify(c, "double signature", pub, msg, append(append([]byte{}, sig...), sig...), aug, false)
	case 9: // other encodings of the same points
		b := append([]byte{}, sig...)
		b[0] &= 0x7f
		verify(c, "signature without the flag", pub, msg, b, aug, false)
		verify(c, "uncompressed signature", pub, msg, bl.G2.Full(S), aug, false)
		verify(c, "uncompressed key", bl.G1.Full(P), msg, sig, aug, false)
		b = append([]byte{}, sig...)
		b[0] |= 0x40
		verify(c, "signature with the infinity flag", pub, msg, b, aug, false)
		b = append([]byte{}, pub...)
		b[0] |= 0x40
		verify(c, "key with the infinity flag", b, msg, sig, aug, false)
		b = append([]byte{}, pub...)
		b[0] &= 0x7f
		verify(c, "key without the flag", b, msg, sig, aug, false)
	case 10: // coordinates plus the prime
		for tries := 0; tries < 40; tries++ {
			x := new(big.Int).Add(P.X.Int(), bl.P)
			if x.BitLen() <= 381 {
				b := mon.B32(x, 48)
				b[0] |= pub[0] & 0xe0
				verify(c, "key not reduced", b, msg, bl.G2.Comp(bl.SignPoint(k, b, msg, aug == 1)), aug, false)
				c.Seen("not reduced", b)
				break
			}
			k = c.Big(bl.R)
			P = bl.G1.MulG(k)
			pub = bl.G1.Comp(P)
		}
		S = bl.SignPoint(k, pub, msg, aug == 1)
		sig = bl.G2.Comp(S)
		verify(c, "genuine", pub, msg, sig, aug, true)
		for i, v := range []bl.Fp{S.X.B, S.X.A} {
			x := new(big.Int).Add(v.Int(), bl.P)
			if x.BitLen() <= 384-3*(1-i) {
				b := append([]byte{}, sig...)
				f := b[0] & 0xe0
				copy(b[48*i:], mon.B32(x, 48))
				if i == 0 {
					b[0] |= f
				}
				verify(c, "signature not reduced", pub, msg, b, aug, false)
				c.Seen("not reduced", b)
			}
		}
	case 11: // related keys and points
		k2 := c.Scalar(bl.R)
		p2 := bl.G1.Comp(bl.G1.MulG(k2))
		verify(c, "signature of another key", pub, msg, bl.G2.Comp(bl.SignPoint(k2, p2, msg, aug == 1)), aug, k2.Cmp(k) == 0)
		verify(c, "random point", pub, msg, bl.G2.Comp(bl.G2.MulG(k2)), aug, false)
		verify(c, "generator", pub, msg, bl.G2.Comp(bl.G2.G), aug, false)
	case 12: // the rogue key of an augmented scheme: signature over the message with another key in front
		k2 := c.Scalar(bl.R)
		if k2.Cmp(k) == 0 {
			k2.Add(k2, big.NewInt(1)).Mod(k2, bl.R)
		}
		p2 := bl.G1.Comp(bl.G1.MulG(k2))
		verify(c, "other key in front", pub, msg, bl.G2.Comp(bl.SignPoint(k, p2, msg, true)), 1, false)
		verify(c, "no key in front", pub, msg, bl.G2.Comp(bl.G2.Mul(bl.Hash2(msg, []byte(bl.AUG)), k)), 1, false)
		verify(c, "key in front in the basic scheme", pub, msg, bl.G2.Comp(bl.G2.Mul(bl.Hash2(append(append([]byte{}, pub...), msg...), []byte(bl.NUL)), k)), 0, false)
		verify(c, "basic scheme over the key and message", pub, append(append([]byte{}, pub...), msg...), bl.G2.Comp(bl.SignPoint(k, pub, append(append([]byte{}, pub...), msg...), false)), 0, true)
		verify(c, "basic tag in the augmented scheme", pub, msg, bl.G2.Comp(bl.G2.Mul(bl.Hash2(append(append([]byte{}, pub...), msg...), []byte(bl.NUL)), k)), 1, false)
	case 13: // halves of the signature's field elements exchanged, sign flipped
		b := append(append([]byte{}, sig[48:]...), sig[:48]...)
		b[0] |= 0x80
		verify(c, "exchanged halves", pub, msg, b, aug, false)
		b = append([]byte{}, sig...)
		b[0] ^= 0x20
		verify(c, "other root", pub, msg, b, aug, false)
		b = append([]byte{}, pub...)
		b[0] ^= 0x20
		verify(c, "other root of the key", b, msg, sig, aug, false)
	case 14:
		verify(c, "random bytes", pub, msg, c.Bytes(96), aug, false)
		b := c.Bytes(96)
		b[0] = b[0]&0x1f | 0x80
		verify(c, "random bytes", pub, msg, b, aug, false)
		verify(c, "random key", c.Bytes(48), msg, sig, aug, false)
	case 15: // package interface without a tag
		if root.Verify(pub, msg, sig) && !bytes.HasPrefix(msg, []byte(bl.NUL[:40])) {
			c.Failf("bls12_381.Verify accepts a message without a tag")
		}
		_, kb, _ := key(c)
		for _, m := range [][]byte{nil, {1}, []byte(bl.NUL[:42]), []byte(bl.AUG[1:]), append([]byte{0}, bl.NUL...)} {
			if s, err := root.Sign(kb, m); err == nil || s != nil {
				c.Failf("bls12_381.Sign of %q without a tag: %x %v", m, s, err)
			}
			if root.Verify(pub, m, sig) {
				c.Failf("bls12_381.Verify accepts %q without a tag", m)
			}
		}
		c.Seen("refused/untagged", pub, msg)
	case 16: // illegal keys
		for _, b := range [][]byte{nil, {}, {1}, make([]byte, 32), mon.B32(bl.R, 32), mon.B32(new(big.Int).Add(bl.R, big.NewInt(int64(1+c.Intn(1000)))), 32), bytes.Repeat([]byte{255}, 32), make([]byte, 31), bytes.Repeat([]byte{1}, 33)} {
			s, _, ret := oc.Signature(b, nil, msg, types[aug])
			if ret == oc.SUCCESS || s != nil {
				c.Failf("Signature with the illegal key %x: %x code %x", b, s, ret)
			}
			c.Seen("illegal key", b, msg)
		}
	case 17: // two signatures whose parts are exchanged: sum and difference
		m2 := message(c)
		T := bl.SignPoint(k, pub, m2, aug == 1)
		sum := bl.G2.Comp(bl.G2.Add(S, T))
		verify(c, "sum of two signatures", pub, msg, sum, aug, false)
		verify(c, "double of a signature", pub, msg, bl.G2.Comp(bl.G2.Add(S, S)), aug, false)
		verify(c, "double of a signature and key", bl.G1.Comp(bl.G1.Add(P, P)), msg, bl.G2.Comp(bl.G2.Add(S, S)), aug, aug == 0)
	case 18: // the key in front of the message
		t := append(append([]byte{}, pub...), msg...)
		for a := 0; a < 2; a++ {
			S, T := bl.G2.Comp(bl.SignPoint(k, pub, msg, a == 1)), bl.G2.Comp(bl.SignPoint(k, pub, t, a == 1))
			verify(c, "genuine", pub, t, T, a, true)
			verify(c, "key put in front", pub, t, S, a, false)
			verify(c, "key taken from the front", pub, msg, T, a, false)
			e := append(append([]byte{}, msg...), pub...)
			if len(msg) > 0 {
				verify(c, "key put behind", pub, e, T, a, false)
			}
			verify(c, "key alone", pub, pub, S, a, len(msg) == 48 && string(msg) == string(pub))
		}
	}
}

func main() {
	mon.Main("C15", []mon.Group{
		{Name: "sign", Quick: 1200, Thorough: 60000, Classes: []string{"signed", "accepted", "refused/other scheme", "empty message", "related message"}, Fn: sign},
		{Name: "lengths", Quick: 1400, Thorough: 9000, Classes: []string{"every length"}, Fn: func(c *mon.Ctx) {
			k, kb, pub := key(c)
			msg, aug := c.Bytes(c.Sweep()), c.Intn(2)
			sig, _, ret := oc.Signature(kb, nil, msg, types[aug])
			if ret != oc.SUCCESS {
				c.Failf("Signature with key %x of %x: code %x", kb, msg, ret)
			}
			c.Eq("signature with key "+mon.Hex(kb)+" of "+mon.Hex(msg), sig, bl.G2.Comp(bl.SignPoint(k, pub, msg, aug == 1)))
			verify(c, "genuine", pub, msg, sig, aug, true)
			if len(msg) > 0 {
				m := append([]byte{}, msg...)
				m[c.Intn(len(m))] ^= 1 << uint(c.Intn(8))
				verify(c, "changed message", pub, m, sig, aug, false)
			}
			c.Seen("every length", len(msg))
		}},
		{Name: "hostile", Quick: 1800, Thorough: 120000, Classes: []string{"not reduced", "illegal key", "refused/signature with a torsion part", "refused/key with a torsion part", "refused/identity key and signature", "refused/untagged", "refused/changed message"}, Fn: hostile},
	})
}
