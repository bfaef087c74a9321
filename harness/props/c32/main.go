// C32: schemes are kept apart, unsupported requests are refused.
package main

import (
	"fmt"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/api"
	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

const (
	K1, R1, SM2, EDN, ED, X, CS, NUL, AUG, PA = api.K1, api.R1, api.SM2, api.EDN, api.ED, api.X, api.CS, api.NUL, api.AUG, api.PA
)

var name = map[uint32]string{K1: "secp256k1", R1: "secp256r1", SM2: "SM2", EDN: "Ed25519 normal", ED: "Ed25519", X: "X25519", CS: "Curve25519-SHA256", NUL: "BLS basic", AUG: "BLS augmented", PA: "Pasta"}

func slow(t uint32) bool { return t == NUL || t == AUG }

func pubLen(t uint32) int {
	switch t {
	case K1, R1, SM2, PA:
		return 64
	case NUL, AUG:
		return 48
	}
	return 32
}

func sigLen(t uint32) int {
	if slow(t) {
		return 96
	}
	return 64
}

func fit(b []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, b)
	return o
}

type signed struct {
	t                  uint32
	pri, pub, msg, sig []byte
	id                 []byte
}

func (s *signed) String() string {
	return fmt.Sprintf("%s signature %s of message %s under key %s (private %s) with ID %s", name[s.t], mon.Hex(s.sig), mon.Hex(s.msg), mon.Hex(s.pub), mon.Hex(s.pri), mon.Hex(s.id))
}

func verify(pub, id, msg, sig []byte, t uint32) bool {
	return oc.Verify(clone(pub), clone(id), clone(msg), clone(sig), t) == oc.SUCCESS
}

func clone(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

func sign(c *mon.Ctx, t uint32, pri, msg []byte) *signed {
	s := &signed{t: t, pri: pri, msg: msg}
	var code uint16
	s.pub, code = oc.GenPubkey(clone(pri), t)
	if code != oc.SUCCESS {
		c.Failf("no public key of type %s for %s: %04x", name[t], mon.Hex(pri), code)
	}
	if t == SM2 {
		s.id = [][]byte{[]byte("1234567812345678"), []byte("a"), c.Bytes(1 + c.Intn(100))}[c.Intn(3)]
	} else if c.Intn(4) == 0 {
		s.id = c.Bytes(16)
	}
	s.sig, _, code = oc.Signature(clone(pri), clone(s.id), clone(msg), t)
	if code != oc.SUCCESS {
		c.Failf("no signature of type %s with key %s on %s: %04x", name[t], mon.Hex(pri), mon.Hex(msg), code)
	}
	if !verify(s.pub, s.id, msg, s.sig, t) {
		c.Failf("%s does not verify", s)
	}
	return s
}

// a private key good for every type
func anyKey(c *mon.Ctx) []byte {
	b := c.Bytes(32)
	b[0] &= 0x0f
	b[31] &= 0x0f
	b[31] |= 1
	return b
}

func message(c *mon.Ctx, t uint32) []byte {
	if t == PA {
		return api.Mina(c.Rand)
	}
	return c.Bytes(32) // good for all other types
}

// converted says whether one of the keys, of types t and u, is the other in Montgomery form.
func converted(p, pub []byte, t, u uint32) bool {
	if t == X {
		t, u, p, pub = u, t, pub, p
	}
	if t != ED && t != EDN || u != X {
		return false
	}
	// pub is an Ed25519 key y, p an X25519 key u = (1+y)/(1-y)
	y := mon.FromLE(pub)
	y.SetBit(y, 255, 0)
	x := mon.FromLE(p)
	x.SetBit(x, 255, 0)
	one := big.NewInt(1)
	l := new(big.Int).Sub(one, y)
	l.Mul(l, x)
	l.Sub(l, one)
	l.Sub(l, y)
	return l.Mod(l, ref.P25).Sign() == 0
}

func pickType(c *mon.Ctx) uint32 {
	for {
		t := api.Types[c.Intn(len(api.Types))]
		if !slow(t) || c.Intn(6) == 0 {
			return t
		}
	}
}

func main() {
	R := mon.Group{}
	_ = R
	var cross, types, ids []string
	for _, t := range api.Types {
		types = append(types, "other key "+name[t], "other message "+name[t])
		for _, u := range api.Types {
			if t != u {
				cross = append(cross, name[t]+" under "+name[u])
			}
		}
	}
	ids = append(ids, "other identity")
	groups := []mon.Group{
		{Name: "types", Quick: 900, Thorough: 60000, Classes: cross, Fn: func(c *mon.Ctx) {
			t := api.Types[(c.I/9)%10]
			u := api.Types[c.I%9]
			if u >= t {
				u = api.Types[c.I%9+1]
			}
			if c.I >= 360 && (slow(t) || slow(u)) && c.Intn(6) > 0 {
				t, u = pickType(c), pickType(c)
				if t == u {
					return
				}
			}
			s := sign(c, t, anyKey(c), message(c, t))
			var pubs [][]byte
			pubs = append(pubs, fit(s.pub, pubLen(u)))
			if p, code := oc.GenPubkey(clone(s.pri), u); code == oc.SUCCESS {
				pubs = append(pubs, p)
			}
			_, k := api.Key(u, c.Intn(4))
			pubs = append(pubs, k)
			if len(s.pub) == pubLen(u) {
				pubs[0] = s.pub
			}
			if pubLen(u) == 32 && len(s.pub) == 64 {
				b := fit(s.pub, 32) // the coordinate in the other byte order
				for i := 0; i < 16; i++ {
					b[i], b[31-i] = b[31-i], b[i]
				}
				pubs = append(pubs, b)
			}
			var sigs [][]byte
			sigs = append(sigs, fit(s.sig, sigLen(u)))
			if c.Bool() && len(s.sig) != sigLen(u) {
				sigs = append(sigs, s.sig)
			}
			if sigLen(u) == 64 && len(s.sig) == 64 && c.Bool() { // halves in the other byte order
				b := make([]byte, 64)
				for i := 0; i < 32; i++ {
					b[i], b[32+i] = s.sig[31-i], s.sig[63-i]
				}
				sigs = append(sigs, b)
			}
			msgs := [][]byte{s.msg}
			if u == PA || t == PA {
				msgs = append(msgs, message(c, u))
			}
			if slow(u) {
				msgs = append(msgs, append(clone(s.pub), s.msg...))
			}
			shared := (t == EDN || t == ED) && (u == EDN || u == ED)
			for _, p := range pubs {
				for _, g := range sigs {
					for _, m := range msgs {
						if (t == X || u == X) && converted(p, s.pub, t, u) {
							continue // the same key in another form: an X25519 signature is an Ed25519 one
						}
						same := shared && string(p) == string(s.pub) && string(g) == string(s.sig) && string(m) == string(s.msg)
						if v := verify(p, s.id, m, g, u); v != same {
							c.Failf("%s\n  under type %s, key %s, message %s, signature %s: verifies is %v", s, name[u], mon.Hex(p), mon.Hex(m), mon.Hex(g), v)
						}
						c.Seen(name[t]+" under "+name[u], p, g, m)
					}
				}
			}
			c.Sample("%s under %s: %d keys, %d signatures, %d messages", name[t], name[u], len(pubs), len(sigs), len(msgs))
		}},
		{Name: "keys", Quick: 700, Thorough: 60000, Classes: append(types, ids...), Fn: func(c *mon.Ctx) {
			t := api.Types[c.I%10]
			if c.I >= 60 && slow(t) && c.Intn(6) > 0 {
				t = pickType(c)
			}
			s := sign(c, t, anyKey(c), message(c, t))
			refuse := func(what string, pub, id, msg, sig []byte) {
				if verify(pub, id, msg, sig, t) {
					c.Failf("%s\n  verifies with %s: key %s, ID %s, message %s, signature %s", s, what, mon.Hex(pub), mon.Hex(id), mon.Hex(msg), mon.Hex(sig))
				}
				c.Seen(what+" "+name[t], pub, id, msg, sig)
			}
			// other keys: a neighbour, an unrelated one, the same with a bit changed
			n := clone(s.pri)
			n[c.Intn(32)] ^= 16 << uint(c.Intn(3))
			n[0] &= 0x0f
			n[31] &= 0x0f
			for _, pri := range [][]byte{n, anyKey(c)} {
				p, code := oc.GenPubkey(clone(pri), t)
				if code == oc.SUCCESS && string(p) != string(s.pub) {
					refuse("other key", p, s.id, s.msg, s.sig)
				}
			}
			b := clone(s.pub)
			b[c.Intn(len(b))] ^= 1 << uint(c.Intn(7))
			if b[31] == s.pub[31]&0x7f || string(b) != string(s.pub) {
				refuse("other key", b, s.id, s.msg, s.sig)
			}
			// other messages
			if t == PA {
				refuse("other message", s.pub, s.id, message(c, t), s.sig)
			} else {
				m := clone(s.msg)
				m[c.Intn(32)] ^= 1 << uint(c.Intn(8))
				refuse("other message", s.pub, s.id, m, s.sig)
				refuse("other message", s.pub, s.id, append(clone(s.msg), 0), s.sig)
				refuse("other message", s.pub, s.id, s.msg[:c.Intn(32)], s.sig)
				refuse("other message", s.pub, s.id, append([]byte{0}, s.msg...), s.sig)
			}
			// the signature of another message, and one with a bit changed
			if t == SM2 {
				for _, id := range [][]byte{nil, []byte("1234567812345679"), append(clone(s.id), 0), s.id[:len(s.id)-1], c.Bytes(16)} {
					if string(id) == string(s.id) {
						continue
					}
					if verify(s.pub, id, s.msg, s.sig, t) {
						c.Failf("%s verifies with ID %s", s, mon.Hex(id))
					}
					c.Seen("other identity", s.id, id, s.sig)
				}
			} else if t == K1 || t == R1 || slow(t) || t == PA || t == EDN || t == ED || t == X || t == CS { // the identity is not used
				if !verify(s.pub, c.Bytes(5), s.msg, s.sig, t) || !verify(s.pub, nil, s.msg, s.sig, t) {
					c.Failf("%s does not verify with another ID", s)
				}
			}
		}},
		// the two Ed25519 types decide alike on everything
		{Name: "shared rule", Quick: 2500, Thorough: 400000, Classes: []string{"shared accept", "shared refuse"}, Fn: func(c *mon.Ctx) {
			t := []uint32{EDN, ED}[c.Intn(2)]
			i, j := c.Intn(4), c.Intn(4)
			_, pub := api.Key(t, i)
			m, sig := api.MsgOf(t, j), api.Sig(t, i, j)
			switch c.Intn(4) {
			case 0:
				sig = sw.Mutate(c, sig)
			case 1:
				pub = sw.Mutate(c, pub)
			case 2: // S plus the order
				v := new(big.Int).Add(mon.FromLE(sig[32:]), ref.L25)
				copy(sig[32:], mon.LE(v, 32))
			}
			a, b := verify(pub, nil, m, sig, EDN), verify(pub, nil, m, sig, ED)
			if a != b {
				c.Failf("key %s, message %s, signature %s: %v under one Ed25519 type, %v under the other", mon.Hex(pub), mon.Hex(m), mon.Hex(sig), a, b)
			}
			c.Seen(map[bool]string{true: "shared accept", false: "shared refuse"}[a], pub, m, sig)
		}},
		{Name: "aliases", Quick: 300, Thorough: 5000, Classes: []string{"alias"}, Fn: func(c *mon.Ctx) {
			r1 := uint32(oc.ECC_CURVE_SECP256R1)
			for _, al := range []uint32{oc.ECC_CURVE_PRIMEV1, oc.ECC_CURVE_NIST_P256} {
				f := api.Pick(c, api.Tops())
				if f.Name == "Hash" || f.Name == "Hmac" || f.Name == "ZA" {
					f = api.ByName("Verify")
				}
				k := api.Make(c, f, c.Bool())
				k.T = r1
				q := k.Clone()
				q.T = al
				var a, b api.Res
				l := fmt.Sprint("alias", c.I)
				api.WithRand(l, func() { a = k.Run().Copy() })
				api.WithRand(l, func() { b = q.Run().Copy() })
				if !a.Eq(b) {
					c.Failf("%s gives %s, but %s under the alias %08x", k.Show(), a, b, al)
				}
				c.Seen("alias", f.Name, al, k.Digest())
			}
			// the alias is a type of its own right: a signature goes through
			pri := anyKey(c)
			h := c.Bytes(32)
			pub, _ := oc.GenPubkey(clone(pri), oc.ECC_CURVE_PRIMEV1)
			s, _, code := oc.Signature(clone(pri), nil, clone(h), oc.ECC_CURVE_NIST_P256)
			if code != oc.SUCCESS || !verify(pub, nil, h, s, oc.ECC_CURVE_SECP256R1) {
				c.Failf("key %s of type PRIMEV1, hash %s, signature of type NIST_P256 %s (%04x) does not verify under SECP256R1", mon.Hex(pri), mon.Hex(h), mon.Hex(s), code)
			}
		}},
		{Name: "orders", Quick: 8, Thorough: 8, Classes: []string{"order"}, Fn: func(c *mon.Ctx) {
			for _, e := range []struct {
				t uint32
				n *big.Int
			}{{K1, ref.K1.N}, {R1, ref.R1.N}, {SM2, ref.SM2.N}, {ED, ref.L25}, {PA, ref.PQ}, {oc.ECC_CURVE_PRIMEV1, ref.R1.N}, {oc.ECC_CURVE_NIST_P256, ref.R1.N}} {
				t, n := e.t, e.n
				got := oc.GetCurveOrder(t)
				if string(got) != string(mon.B32(n, 32)) {
					c.Failf("GetCurveOrder(%08x) = %x, the group has order %064x", t, got, n)
				}
				c.Seen("order", t)
				// an answer that the caller changes does not change the next
				for i := range got {
					got[i] ^= 0xff
				}
				if string(oc.GetCurveOrder(t)) != string(mon.B32(n, 32)) {
					c.Failf("GetCurveOrder(%08x) changes when its last result is written to", t)
				}
			}
		}},
	}
	sup := map[string][]uint32{
		"GenPubkey": api.Types, "Signature": api.Types, "Verify": api.Types,
		"AggregateSignatures": {NUL, AUG}, "Encryption": {SM2}, "Decryption": {SM2},
		"KeyAgreement_initiator_step2": {SM2}, "KeyAgreement_responder_step1": {SM2}, "KeyAgreement_responder_ElGamal_step1": {SM2}, "KeyAgreement_responder_step2": {SM2},
		"RecoverPubkey":  {K1, R1, SM2},
		"Point_mulBaseG": {K1, R1, SM2, ED, NUL, AUG, PA}, "Point_mulBaseG_add": {K1, R1, SM2, ED, NUL, AUG, PA},
		"Point_add": {K1, R1, SM2, ED, PA}, "Point_mul": {K1, R1, SM2, PA},
		"PointCompress": {K1, R1, SM2, PA}, "PointDecompress": {K1, R1, SM2, PA}, "GetCurveOrder": {K1, R1, SM2, ED, PA},
		"Hash": nil, "Hmac": {0x50505050, 0x50505051, 0x50505052},
	}
	for i := uint32(0); i <= 0x12; i++ {
		sup["Hash"] = append(sup["Hash"], 0xA0000000+i)
	}
	// those that say so with a code
	coded := map[string]uint16{"Point_add": oc.FAILURE, "Point_mul": oc.FAILURE, "PointCompress": 0, "PointDecompress": 0, "GetCurveOrder": 0, "Point_mulBaseG": 0, "Point_mulBaseG_add": 0, "Hash": 0, "Hmac": 0}
	var all []uint32
	all = append(all, api.Types...)
	for i := uint32(0); i <= 0x12; i++ {
		all = append(all, 0xA0000000+i)
	}
	all = append(all, 0x50505050, 0x50505051, 0x50505052)
	for _, f := range api.Tops() {
		f := f
		ts, ok := sup[f.Name]
		if !ok {
			continue
		}
		is := map[uint32]bool{}
		for _, t := range ts {
			is[t] = true
		}
		code := func(c *mon.Ctx) uint32 {
			for {
				var t uint32
				switch c.Intn(8) {
				case 0, 1: // a type that other functions support
					t = all[c.Intn(len(all))]
				case 2, 3: // one bit away
					t = ts[c.Intn(len(ts))] ^ 1<<uint(c.Intn(32))
				case 4: // the same low or high part
					t = ts[c.Intn(len(ts))]
					m := []uint32{0xff, 0xffff, 0xffffff, 0xffff0000, 0xff000000, 0xff00ff00}[c.Intn(6)]
					t = t&m | uint32(c.U64())&^m
					if c.Bool() {
						t = t & m
					}
				case 5: // next to the ends
					t = ts[0] - 1 - uint32(c.Intn(8))
					if c.Bool() {
						t = ts[len(ts)-1] + 1 + uint32(c.Intn(40))
					}
				case 6:
					t = uint32(c.Intn(300))
					if c.Bool() {
						t = -t
					}
				default:
					t = uint32(c.U64())
				}
				if !is[t] {
					return t
				}
			}
		}
		groups = append(groups, mon.Group{Name: "codes " + f.Name, Quick: 2400, Thorough: 600000, Classes: []string{"refused " + f.Name}, Fn: func(c *mon.Ctx) {
			if f.Name == "Signature" || f.Name == "Verify" || f.Slow > 1 {
				// the material is costly to make: some codes for each
			}
			k := api.Make(c, f, false)
			whole := true
			if c.Intn(5) == 0 {
				k = api.Make(c, f, true)
				whole = false
			}
			for n := 0; n < 4; n++ {
				k.T = code(c)
				q := k.Clone()
				var r api.Res
				if p := mon.Try(func() { r = q.Run() }); p != "" {
					c.Failf("%s panics: %s", k.Show(), p)
				}
				for _, o := range r.Out {
					if len(o) > 0 {
						c.Failf("%s does not support the type, but gives %s", k.Show(), mon.Hex(o))
					}
				}
				want, ok := coded[f.Name]
				if !ok {
					want = oc.ECC_WRONG_TYPE
				}
				if whole && r.Code != want || r.Code == oc.SUCCESS {
					c.Failf("%s does not support the type, but gives code %04x instead of %04x", k.Show(), r.Code, want)
				}
				c.Seen("refused "+f.Name, k.T)
			}
		}})
		// and the supported ones are
		groups = append(groups, mon.Group{Name: "supported " + f.Name, Quick: 3 * len(ts), Thorough: 60 * len(ts), Classes: []string{"supported " + f.Name}, Fn: func(c *mon.Ctx) {
			t := ts[c.I%len(ts)]
			for tries := 0; ; tries++ {
				k := api.Make(c, f, false)
				if f.Name == "Hash" && (t == oc.HASH_ALG_BLAKE2B || t == oc.HASH_ALG_BLAKE2S) {
					k.N = 32
				}
				if k.T != t {
					if tries > 4000 {
						if f.Name == "GetCurveOrder" || f.Name == "Hash" || f.Name == "Hmac" {
							k.T = t
						} else {
							return
						}
					} else {
						continue
					}
				}
				r := k.Run()
				if len(r.Out) > 0 && len(r.Out[0]) == 0 || r.Code == oc.ECC_WRONG_TYPE {
					if tries < 40 && r.Code != oc.ECC_WRONG_TYPE { // some valid calls have an answer without output
						continue
					}
					c.Failf("%s supports the type, but gives %s", k.Show(), r)
				}
				c.Seen("supported "+f.Name, t)
				return
			}
		}})
	}
	mon.Main("C32", groups)
}
