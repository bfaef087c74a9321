// C04: SM2 signatures follow GB/T 32918 and bind key, message and identity.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"encoding/binary"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

var cv = sw.SM2

func cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}

func ident(c *mon.Ctx) []byte {
	switch c.Intn(9) {
	case 0, 1:
		return nil
	case 2:
		return []byte{}
	case 3:
		return sw.SM2Id
	case 4:
		return c.Bytes([]int{31, 32, 33, 63, 64, 255, 256, 4095, 4096, 8190, 8191}[c.Intn(11)])
	case 5:
		return c.Bytes(c.Intn(8192))
	}
	return c.Bytes(1 + c.Intn(40))
}

func decide(pub, id, msg, sig []byte) bool {
	if len(pub) != 64 || len(msg) != 32 || len(sig) != 64 || len(id) >= 8192 {
		return false
	}
	ok, _ := ref.SM2Verify(pub, ref.SM2Digest(id, pub, msg), sig)
	return ok
}

func verify(c *mon.Ctx, what string, pub, id, msg, sig []byte) {
	want := decide(pub, id, msg, sig)
	ret := oc.Verify(pub, id, msg, sig, cv.T)
	if want != (ret == oc.SUCCESS) || (!want && ret != oc.FAILURE) {
		c.Failf("%s: verification gives %x, the standard says %v: key %s id %s message %s signature %s", what, ret, want, mon.Hex(pub), mon.Hex(id), mon.Hex(msg), mon.Hex(sig))
	}
	if want {
		c.Seen("accepted:"+what, pub, id, msg, sig)
	} else {
		c.Seen("refused:"+what, pub, id, msg, sig)
	}
}

// mk makes a valid signature with a chosen nonce.
func mk(d, k, e *big.Int) []byte {
	r := new(big.Int).Add(cv.MulG(k).X, e)
	r.Mod(r, cv.N)
	s := new(big.Int).Mul(r, d)
	s.Sub(k, s)
	s.Mul(s, new(big.Int).ModInverse(new(big.Int).Add(d, sw.One), cv.N)).Mod(s, cv.N)
	return cat(sw.B32(r), sw.B32(s))
}

type silent struct{}

func (silent) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = 0
	}
	return len(b), nil
}

var short = []int{22032, 33817, 45953, 112116, 134399, 133181, 155720, 239181, 253131, 321555, 341854, 376810, 404659, 426069, 430295, 435949, 454849, 470756, 487205, 504847, 518407, 520997, 554292, 578095}

var pairs = map[int][]byte{}

// known is one of a few key pairs.
func known(i int) (d, pub []byte) {
	x := new(big.Int).Lsh(big.NewInt(int64(7*i+3)), uint(11*i))
	x.Mul(x, x).Mod(x, cv.N)
	if pairs[i] == nil {
		pairs[i] = cv.MulG(x).Enc()
	}
	return sw.B32(x), append([]byte{}, pairs[i]...)
}

func main() {
	mon.Main("C04", []mon.Group{
		{Name: "sign", Quick: 1200, Thorough: 150000, Classes: []string{"signed", "signed/id", "signed/no-id", "v=0", "v=1", "accepted:genuine", "refused:other-id"}, Fn: func(c *mon.Ctx) {
			d, db, q := cv.Key(c)
			msg, id := cv.Hash(c), ident(c)
			if c.Intn(8) == 0 {
				id = c.Related(id, q.Enc(), msg, db, sw.SM2Id)
			}
			if c.Intn(16) == 0 {
				msg = c.Related32(q.Enc(), db, id, sw.SM2Id)
			}
			if len(id) > 8191 {
				id = id[:8191]
			}
			sig, v, ret := oc.Signature(db, id, msg, cv.T)
			if ret != oc.SUCCESS || len(sig) != 64 {
				c.Failf("signing %x with key %x and id %s: code %x, signature %s", msg, d, mon.Hex(id), ret, mon.Hex(sig))
			}
			pub := q.Enc()
			ok, R := ref.SM2Verify(pub, ref.SM2Digest(id, pub, msg), sig)
			if !ok {
				c.Failf("signature %x of %x with key %x and id %s is not valid", sig, msg, d, mon.Hex(id))
			}
			if byte(R.Y.Bit(0)) != v {
				c.Failf("v=%d, the random point is %x (key %x message %x id %s signature %x)", v, R.Enc(), d, msg, mon.Hex(id), sig)
			}
			c.Seen("signed", sig)
			if id == nil {
				c.Seen("signed/no-id", sig)
			} else {
				c.Seen("signed/id", sig)
			}
			c.Seen("v="+string(rune('0'+v)), sig)
			verify(c, "genuine", pub, id, msg, sig)
			verify(c, "other-id", pub, ident(c), msg, sig)
			if len(id) > 0 {
				verify(c, "mutated-id", pub, sw.Mutate(c, id), msg, sig)
			}
			verify(c, "other-message", pub, id, cv.Hash(c), sig)
			verify(c, "opposite-key", cv.Neg(q).Enc(), id, msg, sig)
			c.Sample("key %x id %s message %x -> %x v=%d", d, mon.Hex(id), msg, sig, v)
		}},
		{Name: "short", Quick: 48, Thorough: 48, Fn: func(c *mon.Ctx) {
			// messages (found by search) that gave an r or s with two leading zero bytes under a silent source of randomness
			i := short[c.I%len(short)]
			db, msg := make([]byte, 32), make([]byte, 32)
			for j := range db {
				db[j] = byte(3*j + 5)
			}
			binary.BigEndian.PutUint32(msg, uint32(i)*2654435761)
			binary.BigEndian.PutUint32(msg[28:], uint32(i))
			mon.SetRand(silent{})
			sig, v, ret := oc.Signature(db, nil, msg, cv.T)
			if ret != oc.SUCCESS || len(sig) != 64 {
				c.Failf("signing %x with key %x: code %x, signature %s", msg, db, ret, mon.Hex(sig))
			}
			ok, R := ref.SM2Verify(cv.MulG(sw.Int(db)).Enc(), ref.SM2Digest(nil, nil, msg), sig)
			if !ok || byte(R.Y.Bit(0)) != v {
				c.Failf("signature %x, v=%d, of %x with key %x is not valid", sig, v, msg, db)
			}
			if sig[0]|sig[1] == 0 || sig[32]|sig[33] == 0 {
				c.Seen("two leading zero bytes", sig)
			}
			verify(c, "genuine", cv.MulG(sw.Int(db)).Enc(), nil, msg, sig)
		}},
		{Name: "id-lengths", Quick: 2124, Thorough: 8192 * 20, Classes: []string{"every identity length"}, Fn: func(c *mon.Ctx) {
			// an identity of every length: its digest, signed and verified as it is, is the message with the identity
			db, pub := known(c.Intn(24))
			n := c.I % 8192
			if c.Tier == "quick" && n >= 1100 {
				n = 1100 + (n-1100)*7 + c.Intn(7)
				if n > 8191 {
					n = 8191 - c.Intn(8)
				}
			}
			id, msg := c.Bytes(n), cv.Hash(c)
			za, err := oc.ZA(&ecdsa.PublicKey{X: sw.Int(pub[:32]), Y: sw.Int(pub[32:])}, id)
			if err != nil || string(za) != string(ref.SM2Z(id, pub)) {
				c.Failf("ZA of key %x and id %s is %s (%v)", pub, mon.Hex(id), mon.Hex(za), err)
			}
			e := sw.B32(ref.SM2Digest(id, pub, msg))
			sig, _, ret := oc.Signature(db, id, msg, cv.T)
			if ret != oc.SUCCESS || oc.Verify(pub, nil, e, sig, cv.T) != oc.SUCCESS {
				c.Failf("signing %x with key %x and id %s: code %x, signature %s not of the digest %x", msg, db, mon.Hex(id), ret, mon.Hex(sig), e)
			}
			sig, _, ret = oc.Signature(db, nil, e, cv.T)
			if ret != oc.SUCCESS || oc.Verify(pub, id, msg, sig, cv.T) != oc.SUCCESS {
				c.Failf("verifying %x with key %x and id %s: signature %s of the digest %x refused", msg, pub, mon.Hex(id), mon.Hex(sig), e)
			}
			if len(id) > 0 {
				o := append([]byte{}, id...)
				o[c.Intn(len(o))] ^= 1 << uint(c.Intn(8))
				if c.Intn(4) == 0 {
					o = id[:len(id)-1]
				}
				if oc.Verify(pub, o, msg, sig, cv.T) != oc.FAILURE {
					c.Failf("signature %s of %x with key %x verifies for id %s and id %s", mon.Hex(sig), msg, pub, mon.Hex(id), mon.Hex(o))
				}
			}
			c.Seen("every identity length", len(id))
		}},
		{Name: "special-digest", Quick: 48, Thorough: 3000, Classes: []string{"special digest"}, Fn: func(c *mon.Ctx) {
			// an identity is searched for which one of the two digests begins or ends with unusual bytes
			d, db, q := cv.Key(c)
			pub, msg, id := q.Enc(), cv.Hash(c), c.Bytes(8)
			pat := c.Intn(4)
			for i := 0; i < 300000; i++ {
				binary.BigEndian.PutUint32(id[c.I%5:], uint32(i))
				b := ref.SM2Z(id, pub)
				if c.I%2 == 0 {
					b = ref.SM3(cat(b, msg))
				}
				if v := [][2]byte{{b[0], b[1]}, {b[31], b[30]}, {^b[0], ^b[1]}, {^b[31], ^b[30]}}[pat]; v[0]|v[1] != 0 {
					continue
				}
				sig, v, ret := oc.Signature(db, id, msg, cv.T)
				if ret != oc.SUCCESS || len(sig) != 64 {
					c.Failf("signing %x with key %x and id %x: code %x, signature %s", msg, d, id, ret, mon.Hex(sig))
				}
				ok, R := ref.SM2Verify(pub, ref.SM2Digest(id, pub, msg), sig)
				if !ok || byte(R.Y.Bit(0)) != v {
					c.Failf("signature %x, v=%d, of %x with key %x and id %x is not valid", sig, v, msg, d, id)
				}
				verify(c, "genuine", pub, id, msg, mk(d, cv.Scalar(c), ref.SM2Digest(id, pub, msg)))
				c.Seen("special digest", b)
				return
			}
		}},
		{Name: "mutated", Quick: 1200, Thorough: 150000, Classes: []string{"refused:mutated"}, Fn: func(c *mon.Ctx) {
			d, _, q := cv.Key(c)
			msg, id, pub := cv.Hash(c), ident(c), q.Enc()
			sig := mk(d, cv.Scalar(c), ref.SM2Digest(id, pub, msg))
			verify(c, "genuine", pub, id, msg, sig)
			switch c.Intn(4) {
			case 0:
				pub = sw.Mutate(c, pub)
			case 1:
				msg = sw.Mutate(c, msg)
			default:
				sig = sw.Mutate(c, sig)
			}
			verify(c, "mutated", pub, id, msg, sig)
		}},
		{Name: "crafted", Quick: 1000, Thorough: 100000, Classes: []string{"refused:sum-zero", "refused:infinity", "refused:out-of-range", "accepted:chosen", "refused:off-curve-key", "accepted:doubling", "refused:key-not-reduced", "refused:long-id", "refused:length"}, Fn: func(c *mon.Ctx) {
			d, _, q := cv.Key(c)
			pub := q.Enc()
			// any nonce, with and without identity
			msg := cv.Hash(c)
			sig := mk(d, cv.Scalar(c), sw.Int(msg))
			verify(c, "chosen", pub, nil, msg, sig)
			verify(c, "chosen-empty-id", pub, []byte{}, msg, sig)
			// chosen r and s: e = r - x(sG + (r+s)Q)
			r, s := cv.Scalar(c), cv.Scalar(c)
			craft := func(what string, q ref.Pt, r, s *big.Int) {
				t := new(big.Int).Add(r, s)
				p := cv.Add(cv.MulG(s), cv.Mul(q, t.Mod(t, cv.N)))
				e := new(big.Int).Set(r)
				if !p.Inf() {
					e.Sub(e, p.X)
				}
				e.Mod(e, cv.N)
				verify(c, what, q.Enc(), nil, sw.B32(e), cat(sw.B32(r), sw.B32(s)))
				if w := new(big.Int).Add(e, cv.N); w.Cmp(sw.Two256) < 0 {
					verify(c, what, q.Enc(), nil, sw.B32(w), cat(sw.B32(r), sw.B32(s)))
				}
			}
			craft("chosen", q, r, s)
			craft("chosen", q, sw.One, s)
			craft("chosen", q, new(big.Int).Sub(cv.N, sw.One), sw.One)
			craft("sum-zero", q, r, new(big.Int).Sub(cv.N, r))
			craft("chosen", q, r, new(big.Int).Sub(cv.N, sw.One))
			craft("chosen-special", cv.Point(c), r, s)
			// s = -t d: the sum at infinity, r any
			di := new(big.Int).ModInverse(new(big.Int).Add(d, sw.One), cv.N)
			s2 := new(big.Int).Mul(r, d)
			s2.Neg(s2).Mul(s2, di).Mod(s2, cv.N)
			if s2.Sign() != 0 {
				craft("infinity", q, r, s2)
			}
			// s = t d: doubling in the sum
			if den := new(big.Int).Sub(sw.One, d); den.Mod(den, cv.N).Sign() != 0 {
				s3 := new(big.Int).Mul(r, d)
				s3.Mul(s3, den.ModInverse(den, cv.N)).Mod(s3, cv.N)
				if s3.Sign() != 0 {
					craft("doubling", q, r, s3)
				}
			}
			z := make([]byte, 32)
			for _, bad := range [][]byte{cat(z, sig[32:]), cat(sig[:32], z), cat(z, z), cat(sw.B32(cv.N), sig[32:]), cat(sig[:32], sw.B32(cv.N)), cat(bytes.Repeat([]byte{255}, 32), sig[32:])} {
				verify(c, "out-of-range", pub, nil, msg, bad)
			}
			for i := 0; i < 2; i++ {
				if w := new(big.Int).Add(sw.Int(sig[32*i:32*i+32]), cv.N); w.Cmp(sw.Two256) < 0 {
					bad := append([]byte{}, sig...)
					copy(bad[32*i:], sw.B32(w))
					verify(c, "out-of-range", pub, nil, msg, bad)
				}
			}
			verify(c, "off-curve-key", make([]byte, 64), nil, msg, sig)
			off := append([]byte{}, pub...)
			off[c.Intn(64)] ^= 1 << uint(c.Intn(8))
			verify(c, "off-curve-key", off, nil, msg, sig)
			// x + p for a key with small x
			sp := cv.LiftNear(c, big.NewInt(int64(c.Intn(1000))))
			t := new(big.Int).Add(r, s)
			if p := cv.Add(cv.MulG(s), cv.Mul(sp, t.Mod(t, cv.N))); !p.Inf() {
				e := new(big.Int).Sub(r, p.X)
				e.Mod(e, cv.N)
				sg := cat(sw.B32(r), sw.B32(s))
				verify(c, "small-x-key", sp.Enc(), nil, sw.B32(e), sg)
				verify(c, "key-not-reduced", cat(sw.B32(new(big.Int).Add(sp.X, cv.P)), sw.B32(sp.Y)), nil, sw.B32(e), sg)
			}
			// identities of 8192 bytes and more cannot be signed for
			long := c.Bytes([]int{8192, 8193, 8192 + 16, 16384, 65536 + 16}[c.Intn(5)])
			verify(c, "long-id", pub, long, msg, mk(d, cv.Scalar(c), ref.SM2Digest(long, pub, msg)))
			for _, n := range []int{0, 1, 31, 33, 63, 65, 96, c.Intn(200)} {
				b := make([]byte, n)
				copy(b, pub)
				if n != 64 {
					verify(c, "length", b, nil, msg, sig)
					copy(b, sig)
					verify(c, "length", pub, nil, msg, b)
				}
				b = make([]byte, n)
				copy(b, msg)
				if n != 32 {
					verify(c, "length", pub, nil, b, sig)
					verify(c, "length", pub, sw.SM2Id, b, mk(d, cv.Scalar(c), ref.SM2Digest(sw.SM2Id, pub, b)))
				}
			}
			verify(c, "length", cat([]byte{4}, pub), nil, msg, sig)
		}},
		{Name: "refused", Quick: 400, Thorough: 10000, Classes: []string{"key-refused", "message-refused", "id-refused"}, Fn: func(c *mon.Ctx) {
			_, db, _ := cv.Key(c)
			msg, id := cv.Hash(c), ident(c)
			expect := func(what string, want uint16, key, id, m []byte) {
				sig, v, ret := oc.Signature(key, id, m, cv.T)
				if ret != want || sig != nil || v != 0 {
					c.Failf("%s: code %x, signature %s, v %d; want code %x and no signature (key %s, id %s, message %s)", what, ret, mon.Hex(sig), v, want, mon.Hex(key), mon.Hex(id), mon.Hex(m))
				}
			}
			nm1 := new(big.Int).Sub(cv.N, sw.One)
			for _, k := range [][]byte{nil, {}, make([]byte, 32), sw.B32(nm1), sw.B32(cv.N), sw.B32(new(big.Int).Add(cv.N, sw.One)), bytes.Repeat([]byte{255}, 32), db[1:], cat([]byte{0}, db), c.Bytes(c.Intn(32))} {
				expect("illegal private key", oc.ECC_PRIKEY_ILLEGAL, k, id, msg)
				c.Seen("key-refused", len(k), k)
			}
			for _, m := range [][]byte{nil, {}, msg[1:], cat([]byte{0}, msg), c.Bytes(c.Intn(32)), c.Bytes(33 + c.Intn(100))} {
				expect("message that is not 32 bytes", oc.MESSAGE_ILLEGAL, db, id, m)
				c.Seen("message-refused", len(m), m)
			}
			long := c.Bytes([]int{8192, 8193, 10000, 65536, 65552}[c.Intn(5)])
			expect("identity of 8192 bytes or more", oc.FAILURE, db, long, msg)
			c.Seen("id-refused", len(long))
			for _, k := range []*big.Int{sw.One, new(big.Int).Sub(nm1, sw.One)} {
				sig, _, ret := oc.Signature(sw.B32(k), id, msg, cv.T)
				if ret != oc.SUCCESS || !decide(cv.MulG(k).Enc(), id, msg, sig) {
					c.Failf("key %x: code %x, signature %s", k, ret, mon.Hex(sig))
				}
			}
		}},
	})
}
