// C10: the randomness of signatures, observed through the nonces that a known private key gives away.
package main

import (
	"crypto/sha512"
	"errors"
	"fmt"
	"math"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

// scheme makes one operation and gives its secret number (or, where it stays hidden, a public image of it).
type scheme struct {
	name      string
	bits      int // the secret is uniform on this many bits
	hidden    bool
	byMessage bool // hedged by the message
	byKey     bool
	canFail   bool // refuses when the source of randomness fails
	hash      bool // the message is a 32 byte hash
	key       func(c *mon.Ctx) []byte
	op        func(c *mon.Ctx, key, msg []byte) (*big.Int, uint16)
}

func ecdsa(cv sw.Cv) func(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	return func(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
		sig, v, ret := oc.Signature(key, nil, msg, cv.T)
		if ret != oc.SUCCESS {
			return nil, ret
		}
		r, s := sw.Int(sig[:32]), sw.Int(sig[32:])
		k := new(big.Int).Mul(r, sw.Int(key))
		k.Add(k, sw.Int(msg))
		k.Mul(k, s.ModInverse(s, cv.N)).Mod(k, cv.N)
		if cv.MulG(k).Y.Bit(0) != uint(v) {
			k.Sub(cv.N, k)
		}
		return k, ret
	}
}

func sm2Sign(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	sig, _, ret := oc.Signature(key, nil, msg, oc.ECC_CURVE_SM2_STANDARD)
	if ret != oc.SUCCESS {
		return nil, ret
	}
	r, s, d := sw.Int(sig[:32]), sw.Int(sig[32:]), sw.Int(key)
	k := new(big.Int).Add(d, sw.One)
	k.Mul(k, s)
	k.Add(k, r.Mul(r, d)).Mod(k, ref.SM2.N)
	return k, ret
}

func sm2Encrypt(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	ct, ret := oc.Encryption(ref.SM2.MulG(sw.Int(key)).Enc(), msg, oc.ECC_CURVE_SM2_STANDARD)
	if ret != oc.SUCCESS {
		return nil, ret
	}
	return sw.Int(ct[1:33]), ret
}

func sm2KA(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	k, p := oc.KeyAgreement_initiator_step1(oc.ECC_CURVE_SM2_STANDARD)
	if len(k) != 32 || string(p) != string(ref.SM2.MulG(sw.Int(k)).Enc()) {
		c.Failf("ephemeral key pair %x %x", k, p)
	}
	return sw.Int(k), oc.SUCCESS
}

func sm2Responder(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	pub := ref.SM2.MulG(sw.Int(key)).Enc()
	other := ref.SM2.MulG(big.NewInt(77)).Enc()
	_, tmp, _, _, ret := oc.KeyAgreement_responder_step1([]byte("a"), []byte("b"), key, pub, other, other, 16, oc.ECC_CURVE_SM2_STANDARD)
	if ret != oc.SUCCESS {
		return nil, ret
	}
	return sw.Int(tmp[:32]), ret
}

func ed(typ uint32) func(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	return func(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
		sig, _, ret := oc.Signature(key, nil, msg, typ)
		if ret != oc.SUCCESS {
			return nil, ret
		}
		a := new(big.Int).Mod(mon.FromLE(key), ref.L25)
		A := ref.EdMulBase(a).Enc()
		sb := append([]byte{}, sig[32:]...)
		sb[31] &= 0x7f
		h := sha512.New()
		h.Write(sig[:32])
		h.Write(A)
		h.Write(msg)
		k := mon.FromLE(h.Sum(nil))
		k.Mul(k, a)
		k.Sub(mon.FromLE(sb), k).Mod(k, ref.L25)
		return k, ret
	}
}

var mina = ref.MinaMsg{IV: ref.MinaMainnet, Prefix: []*big.Int{big.NewInt(5)}}

func pasta(c *mon.Ctx, key, msg []byte) (*big.Int, uint16) {
	m := mina
	m.Suffix = []*big.Int{new(big.Int).Mod(sw.Int(msg), ref.PP)}
	sig, _, ret := oc.Signature(key, nil, m.JSON(), oc.ECC_CURVE_PASTA)
	if ret != oc.SUCCESS {
		return nil, ret
	}
	d := sw.Int(key)
	e := m.Hash(ref.Pallas.MulG(d), sw.Int(sig[:32]))
	e.Mul(e, d)
	k := new(big.Int).Sub(sw.Int(sig[32:]), e)
	return k.Mod(k, ref.PQ), ret
}

func keyOf(cv sw.Cv) func(c *mon.Ctx) []byte {
	return func(c *mon.Ctx) []byte {
		n := new(big.Int).Sub(cv.N, big.NewInt(2))
		return sw.B32(new(big.Int).Add(c.Big(n), sw.One))
	}
}

var schemes = []scheme{
	{name: "secp256k1", bits: 256, byMessage: true, byKey: true, canFail: true, hash: true, key: keyOf(sw.K1), op: ecdsa(sw.K1)},
	{name: "secp256r1", bits: 256, byMessage: true, byKey: true, canFail: true, hash: true, key: keyOf(sw.R1), op: ecdsa(sw.R1)},
	{name: "SM2 signature", bits: 256, byMessage: true, byKey: true, canFail: true, hash: true, key: keyOf(sw.SM2), op: sm2Sign},
	{name: "SM2 encryption", bits: 256, hidden: true, canFail: true, key: keyOf(sw.SM2), op: sm2Encrypt},
	{name: "SM2 initiator", bits: 256, key: keyOf(sw.SM2), op: sm2KA},
	{name: "SM2 responder", bits: 256, hidden: true, key: keyOf(sw.SM2), op: sm2Responder},
	{name: "Ed25519 scalar", bits: 252, byMessage: true, key: func(c *mon.Ctx) []byte { return c.Bytes(32) }, op: ed(oc.ECC_CURVE_ED25519)},
	{name: "X25519", bits: 252, byMessage: true, byKey: true, key: func(c *mon.Ctx) []byte { return c.Bytes(32) }, op: ed(oc.ECC_CURVE_X25519)},
	{name: "Pasta", bits: 254, key: keyOf(sw.Pasta), op: pasta},
}

// source counts what is read.
type source struct {
	r     *mon.Rand
	n     int
	flip  int // offset of a byte that is changed
	mask  byte
	chunk int // at most so many bytes per read
	fail  int // error after so many bytes, if positive or zero
}

func stream(label string) *source { return &source{r: mon.NewRand(label), flip: -1, fail: -1} }

var errSource = errors.New("no randomness")

func (s *source) Read(p []byte) (int, error) {
	if s.chunk > 0 && len(p) > s.chunk {
		p = p[:s.chunk]
	}
	if s.fail >= 0 {
		if s.n >= s.fail {
			return 0, errSource
		}
		if s.n+len(p) > s.fail {
			p = p[:s.fail-s.n]
		}
	}
	s.r.Read(p)
	if s.flip >= s.n && s.flip < s.n+len(p) {
		p[s.flip-s.n] ^= s.mask
	}
	s.n += len(p)
	return len(p), nil
}

func run(c *mon.Ctx, sc *scheme, key, msg []byte, s *source) *big.Int {
	mon.SetRand(s)
	k, ret := sc.op(c, key, msg)
	if ret != oc.SUCCESS {
		c.Failf("%s with key %x, message %x: code %x", sc.name, key, msg, ret)
	}
	return k
}

// stats decides whether the numbers look uniform on bits bits.
func stats(c *mon.Ctx, name string, ks []*big.Int, bits int, masks map[string][]*big.Int) {
	n := float64(len(ks))
	sigma := math.Sqrt(n) / 2
	count := func(what string, get func(i, b int) uint) {
		for b := 0; b < bits; b++ {
			ones := 0
			for i := range ks {
				ones += int(get(i, b))
			}
			if d := math.Abs(float64(ones) - n/2); d > 6.2*sigma {
				c.Failf("%s: bit %d of the secret%s is set in %d of %d cases", name, b, what, ones, len(ks))
			}
		}
		c.Seen("statistics/bits"+what, name, c.I)
	}
	count("", func(i, b int) uint { return ks[i].Bit(b) })
	count(" xor its successor", func(i, b int) uint { return ks[i].Bit(b) ^ ks[(i+1)%len(ks)].Bit(b) })
	count(" xor its own half", func(i, b int) uint {
		return ks[i].Bit(b) ^ ks[i].Bit((b+bits/2)%bits)*uint(1)
	})
	for what, m := range masks {
		m := m
		count(" xor the "+what, func(i, b int) uint { return ks[i].Bit(b) ^ m[i].Bit(b) })
		count(" xor the reversed "+what, func(i, b int) uint { return ks[i].Bit(b) ^ m[i].Bit(255-b) })
	}
	for _, at := range []int{0, 8, bits/2 - 8, bits - 16, bits - 8} {
		var bins [256]float64
		for _, k := range ks {
			bins[new(big.Int).Rsh(k, uint(at)).Uint64()&0xff]++
		}
		e, x := n/256, 0.0
		for _, o := range bins {
			x += (o - e) * (o - e) / e
		}
		if x > 255+7.5*math.Sqrt(2*255) {
			c.Failf("%s: the byte at bit %d of the secrets is not uniform: chi squared %.0f with 255 degrees of freedom over %d cases", name, at, x, len(ks))
		}
		c.Seen("statistics/bytes", name, at, c.I)
	}
}

func distinct(c *mon.Ctx, what string, ks []*big.Int) {
	seen := map[string]int{}
	put := func(kind string, i int, v *big.Int) {
		id := kind + string(v.Bytes())
		if j, ok := seen[id]; ok && j != i {
			c.Failf("%s: operations %d and %d have the same %s %x", what, j, i, kind, v)
		}
		seen[id] = i
	}
	m := new(big.Int).Sub(new(big.Int).Lsh(sw.One, 64), sw.One)
	for i, k := range ks {
		put("secret", i, k)
		put("low quarter", i, new(big.Int).And(k, m))
		put("second quarter", i, new(big.Int).And(new(big.Int).Rsh(k, 64), m))
		put("third quarter", i, new(big.Int).And(new(big.Int).Rsh(k, 128), m))
		put("high quarter", i, new(big.Int).Rsh(k, 192))
		if i > 0 {
			put("difference", i, new(big.Int).Sub(k, ks[i-1]))
		}
	}
}

func main() {
	var groups []mon.Group
	for i := range schemes {
		sc := &schemes[i]
		message := func(c *mon.Ctx) []byte {
			if sc.hash {
				return c.Bytes(32)
			}
			return c.Bytes(1 + c.Intn(200))
		}
		quick, samples := 4, 700
		groups = append(groups,
			mon.Group{Name: sc.name + " statistics", Quick: quick, Thorough: 64, Classes: []string{sc.name + "/sample"}, Fn: func(c *mon.Ctx) {
				n := samples
				if c.Tier == "thorough" {
					n = 6000
				}
				src := stream(fmt.Sprintf("c10|%s|%d|%d", sc.name, c.I, c.U64()))
				if c.I%3 == 1 {
					src.chunk = 1 + c.Intn(8)
				}
				key, m := sc.key(c), message(c)
				var ks []*big.Int
				masks := map[string][]*big.Int{"key": nil, "message": nil}
				before := 0
				for i := 0; i < n; i++ {
					switch c.I % 4 {
					case 0:
						key, m = sc.key(c), message(c)
					case 1:
						m = message(c)
					case 2:
						key = sc.key(c)
					}
					ks = append(ks, run(c, sc, key, m, src))
					if c.I%4 == 0 {
						masks["key"] = append(masks["key"], sw.Int(key))
						mm := sw.Int(m)
						if len(m) != 32 {
							mm = c.Big(sw.Two256)
						}
						masks["message"] = append(masks["message"], mm)
					}
					c.Seen(sc.name+"/sample", ks[i])
				}
				if c.I%4 != 0 {
					masks = nil
				}
				if got := src.n - before; got < 16*n {
					c.Failf("%s: %d operations read %d bytes of randomness", sc.name, n, got)
				}
				distinct(c, sc.name, ks)
				if !sc.hidden {
					stats(c, sc.name, ks, sc.bits, masks)
				} else {
					stats(c, sc.name, ks, 255, nil)
				}
				c.Sample("%s: %d secrets, the first %x", sc.name, n, ks[0])
			}},
			mon.Group{Name: sc.name + " entropy", Quick: 16, Thorough: 800, Classes: []string{sc.name + "/byte of randomness matters"}, Fn: func(c *mon.Ctx) {
				key, m, label := sc.key(c), message(c), fmt.Sprint(c.U64())
				chunk := 0
				if c.Bool() {
					chunk = 1 + c.Intn(7)
				}
				mk := func() *source { s := stream(label); s.chunk = chunk; return s }
				a := mk()
				k := run(c, sc, key, m, a)
				if k.Cmp(run(c, sc, key, m, mk())) != 0 {
					// not a function of the source alone: nothing to learn from changing it
					c.Seen("not reproducible", sc.name)
				} else {
					matter, seen := 0, map[string]bool{string(k.Bytes()): true}
					for j := 0; j < a.n && j < 80; j++ {
						s := mk()
						s.flip, s.mask = j, 1<<uint(c.Intn(6))
						if k2 := run(c, sc, key, m, s); !seen[string(k2.Bytes())] {
							seen[string(k2.Bytes())] = true
							matter++
							c.Seen(sc.name+"/byte of randomness matters", label, j)
						}
					}
					if matter < 16 {
						c.Failf("%s with key %x, message %x: only %d of the %d bytes of randomness that are read (%d at a time) affect the secret", sc.name, key, m, matter, a.n, chunk)
					}
				}
				if a.n < 16 {
					c.Failf("%s reads %d bytes of randomness", sc.name, a.n)
				}
			}})
		if sc.byMessage || sc.byKey {
			groups = append(groups, mon.Group{Name: sc.name + " replay", Quick: 12, Thorough: 600, Classes: []string{sc.name + "/replayed randomness"}, Fn: func(c *mon.Ctx) {
				// the source gives the same bytes again, as after a snapshot is restored
				key, m, label := sc.key(c), message(c), fmt.Sprint(c.U64())
				type run1 struct{ key, m []byte }
				all := map[string]run1{}
				try := func(key, m []byte) {
					k := run(c, sc, key, m, stream(label))
					if o, ok := all[string(k.Bytes())]; ok && (string(o.m) != string(m) && sc.byMessage || string(o.key) != string(key) && sc.byKey && string(o.m) == string(m)) {
						c.Failf("%s: key %x with message %x and key %x with message %x have the same secret %x when the random source repeats itself", sc.name, o.key, o.m, key, m, k)
					}
					all[string(k.Bytes())] = run1{append([]byte{}, key...), append([]byte{}, m...)}
					c.Seen(sc.name+"/replayed randomness", key, m)
				}
				try(key, m)
				for j := range m {
					m2 := append([]byte{}, m...)
					m2[j] ^= 1 << uint(c.Intn(8))
					try(key, m2)
				}
				if !sc.hash {
					// a long message, changed anywhere
					long := c.Bytes(200 + c.Intn(6000))
					try(key, long)
					for j := 0; j < 40; j++ {
						m2 := append([]byte{}, long...)
						at := c.Intn(len(long))
						if j%4 == 0 {
							at = len(long) - 1 - j/4
						}
						m2[at] ^= 1 << uint(c.Intn(8))
						try(key, m2)
					}
					try(key, append(append([]byte{}, m...), 0))
					if len(m) > 1 {
						try(key, m[:len(m)-1])
					}
				}
				if sc.byKey {
					for j := 1; j < 32; j++ {
						k2 := append([]byte{}, key...)
						k2[j] ^= 1 << uint(c.Intn(8))
						try(k2, m)
					}
				}
			}})
		}
		if sc.canFail {
			groups = append(groups, mon.Group{Name: sc.name + " failing", Quick: 64, Thorough: 1000, Classes: []string{sc.name + "/failing source"}, Fn: func(c *mon.Ctx) {
				s := stream(fmt.Sprint(c.U64()))
				s.fail = c.I % 16
				s.chunk = c.Intn(4) * 5
				key, m := sc.key(c), message(c)
				mon.SetRand(s)
				if k, ret := sc.op(c, key, m); ret == oc.SUCCESS || k != nil {
					c.Failf("%s succeeds on %d bytes of randomness", sc.name, s.fail)
				}
				c.Seen(sc.name+"/failing source", s.fail, key)
			}})
		}
	}
	groups = append(groups, mon.Group{Name: "deterministic", Quick: 120, Thorough: 6000, Classes: []string{"deterministic"}, Fn: func(c *mon.Ctx) {
		typ := []uint32{oc.ECC_CURVE_ED25519_NORMAL, oc.ECC_CURVE_CURVE25519_SHA256, oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG}[c.I%4]
		key := c.Bytes(32)
		key[0] &= 0x3f
		m := c.Bytes(1 + c.Intn(80))
		var first []byte
		for i := 0; i < 3; i++ {
			mon.SetRand(stream(fmt.Sprint(c.U64())))
			sig, _, ret := oc.Signature(key, nil, m, typ)
			if ret != oc.SUCCESS {
				c.Failf("type %x: code %x", typ, ret)
			}
			if i == 0 {
				first = sig
			}
			c.Eq("repeated signature", sig, first)
		}
		c.Seen("deterministic", first)
	}})
	mon.Main("C10", groups)
}
