// C06: SM2 key agreement.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

const T = oc.ECC_CURVE_SM2_STANDARD

func id(c *mon.Ctx) []byte {
	switch c.Intn(12) {
	case 0:
		return sw.SM2Id
	case 1:
		return c.Bytes(8191)
	case 2:
		return c.Bytes(1 + c.Intn(8191))
	}
	return c.Bytes(1 + c.Intn(60))
}

func klen(c *mon.Ctx) int {
	switch c.Intn(10) {
	case 0:
		return 65535
	case 1:
		return 1 + c.Intn(65535)
	case 2:
		return 8150 + c.Intn(60)
	case 3:
		return 32 * (1 + c.Intn(10))
	}
	return 1 + c.Intn(100)
}

type party struct {
	d   *big.Int
	db  []byte
	pub []byte
}

func mk(c *mon.Ctx) party {
	if c.Intn(8) == 0 {
		d, q := sw.SM2.SpecialKey(c)
		return party{d, sw.B32(d), q.Enc()}
	}
	d := c.Scalar(ref.SM2.N)
	return party{d, sw.B32(d), ref.SM2.MulG(d).Enc()}
}

// run is a set of values of one agreement.
type run struct {
	idA, idB []byte
	a, b     party
	ra       party
	random   []byte
	n        int
}

func responder(c *mon.Ctx, x run, ra []byte) (key, rb, s2, s1 []byte, ret uint16) {
	if x.random != nil {
		return oc.KeyAgreement_responder_ElGamal_step1(x.idA, x.idB, x.b.db, x.b.pub, x.a.pub, ra, uint16(x.n), x.random, T)
	}
	return oc.KeyAgreement_responder_step1(x.idA, x.idB, x.b.db, x.b.pub, x.a.pub, ra, uint16(x.n), T)
}

func initiator(x run, rb, s1 []byte) (key, sout []byte, ret uint16) {
	return oc.KeyAgreement_initiator_step2(x.idA, x.idB, x.a.db, x.a.pub, x.b.pub, x.ra.db, x.ra.pub, rb, s1, uint16(x.n), T)
}

func draw(c *mon.Ctx) run {
	x := run{idA: id(c), idB: id(c), a: mk(c), b: mk(c), n: klen(c)}
	if c.Intn(4) == 0 {
		rd, rp := oc.KeyAgreement_initiator_step1(T)
		if len(rd) != 32 || len(rp) != 64 || string(ref.SM2.MulG(sw.Int(rd)).Enc()) != string(rp) {
			c.Failf("ephemeral key pair %s, %s", mon.Hex(rd), mon.Hex(rp))
		}
		if d := sw.Int(rd); d.Sign() == 0 || d.Cmp(ref.SM2.N) >= 0 {
			c.Failf("ephemeral key %x out of range", rd)
		}
		x.ra = party{sw.Int(rd), rd, rp}
		c.Seen("ephemeral", rd)
	} else {
		x.ra = mk(c)
	}
	if c.Bool() {
		x.random = sw.B32(sw.SM2.Scalar(c))
	}
	switch c.Intn(24) {
	case 0:
		x.idB = append([]byte{}, x.idA...)
	case 1:
		x.idA = c.Related(x.idA, x.idB, x.a.pub, x.b.pub, x.ra.pub)
	case 2:
		x.idB = c.Related(x.idB, x.idA, x.a.pub, x.b.pub, x.ra.pub)
	}
	if len(x.idA) > 8191 {
		x.idA = x.idA[:8191]
	}
	if len(x.idB) > 8191 {
		x.idB = x.idB[:8191]
	}
	return x
}

// check runs the two parties and compares everything with the reference.
func check(c *mon.Ctx, x run) (rb, s1, s3 []byte) {
	key, rb, s3in, s1, ret := responder(c, x, x.ra.pub)
	if ret != oc.SUCCESS {
		c.Failf("responder fails with %x: %+v", ret, x)
	}
	if !ref.SM2.On(ref.Dec(rb)) || len(rb) != 64 {
		c.Failf("responder's ephemeral key %s", mon.Hex(rb))
	}
	if x.random != nil {
		c.Eq("responder's ephemeral key from its randomness", rb, ref.SM2.MulG(sw.Int(x.random)).Enc())
	}
	wk, w2, w3 := ref.SM2KA(true, x.idA, x.idB, x.a.d, x.ra.d, x.a.pub, x.b.pub, x.ra.pub, rb, x.n)
	c.Eq("responder's key", key, wk)
	c.Eq("responder's confirmation (0x02)", s1, w2)
	c.Eq("confirmation that the responder expects (0x03)", s3in, w3)
	ik, is3, ret := initiator(x, rb, s1)
	if ret != oc.SUCCESS {
		c.Failf("initiator fails with %x", ret)
	}
	c.Eq("initiator's key", ik, wk)
	c.Eq("initiator's confirmation (0x03)", is3, w3)
	if ret := oc.KeyAgreement_responder_step2(is3, s3in, T); ret != oc.SUCCESS {
		c.Failf("responder refuses the initiator's confirmation with %x", ret)
	}
	cl := "agreed"
	if x.random != nil {
		cl = "agreed/random-supplied"
	}
	c.Seen(cl, x.a.db, x.b.db, x.ra.db, rb, x.idA, x.idB, x.n)
	if x.n >= 8192 {
		c.Seen("agreed/long-key", x.a.db, rb)
	}
	return rb, s1, s3in
}

func none(c *mon.Ctx, what string, ret uint16, outs ...[]byte) {
	if ret == oc.SUCCESS {
		c.Failf("%s: accepted", what)
	}
	if ret != oc.FAILURE && ret != oc.ECC_WRONG_TYPE && ret != oc.ECC_PUBKEY_ILLEGAL && ret != oc.ECC_PRIKEY_ILLEGAL {
		c.Failf("%s: code %x", what, ret)
	}
	for _, o := range outs {
		if o != nil {
			c.Failf("%s: refused with %x but gives %s", what, ret, mon.Hex(o))
		}
	}
}

func flip(c *mon.Ctx, b []byte) []byte {
	o := append([]byte{}, b...)
	o[c.Intn(len(o))] ^= 1 << uint(c.Intn(8))
	return o
}

func main() {
	mon.Main("C06", []mon.Group{
		{Name: "agree", Quick: 900, Thorough: 60000, Classes: []string{"agreed", "agreed/random-supplied", "agreed/long-key", "ephemeral"}, Fn: func(c *mon.Ctx) {
			x := draw(c)
			if c.I < 140 {
				x.n = c.I + 1
			}
			switch c.Intn(12) {
			case 0: // the same party on both sides
				x.b = x.a
				x.idB = x.idA
			case 1:
				x.ra = x.a
			case 2:
				x.random = x.ra.db
			}
			rb, s1, s3 := check(c, x)
			c.Sample("%d byte key for ids of %d and %d bytes, keys %x and %x, ephemeral %x and %x: confirmations %x %x", x.n, len(x.idA), len(x.idB), x.a.db, x.b.db, x.ra.pub, rb, s1, s3)
		}},
		{Name: "lengths", Quick: 1100, Thorough: 65535, Classes: []string{"every length"}, Fn: func(c *mon.Ctx) {
			// every length of an identity and of the key, in turn
			x := draw(c)
			x.n = 1 + c.I%65535
			x.idA, x.idB = c.Bytes(1+c.I%8191), c.Bytes(1+c.Intn(100))
			if c.I >= 600 && c.Tier == "quick" {
				x.idA = c.Bytes(600 + (c.I-600)*15 + c.Intn(15))
			}
			if c.Bool() {
				x.idA, x.idB = x.idB, x.idA
			}
			check(c, x)
			c.Seen("every length", x.n, len(x.idA), len(x.idB))
		}},
		{Name: "special-output", Quick: 40, Thorough: 1500, Classes: []string{"special:key", "special:confirmation", "special:expected", "special:digest"}, Fn: func(c *mon.Ctx) {
			// an identity is searched for which a digest, the key or a confirmation begins or ends with unusual bytes
			x := draw(c)
			x.random = sw.B32(sw.SM2.Scalar(c))
			x.n = 1 + c.Intn(100)
			rd := sw.Int(x.random)
			rb := ref.SM2.MulG(rd).Enc()
			bar := func(b []byte) *big.Int {
				m := new(big.Int).Lsh(big.NewInt(1), 127)
				v := sw.Int(b[:32])
				return v.Mod(v, m).Add(v, m)
			}
			t := new(big.Int).Mul(bar(rb), rd)
			t.Add(t, x.b.d).Mod(t, ref.SM2.N)
			up := ref.SM2.Mul(ref.SM2.Add(ref.Dec(x.a.pub), ref.SM2.Mul(ref.Dec(x.ra.pub), bar(x.ra.pub))), t)
			if up.Inf() {
				return
			}
			u := up.Enc()
			zb := ref.SM2Z(x.idB, x.b.pub)
			x.idA = c.Bytes(8)
			kind := c.I % 4
			pat := c.Intn(6)
			fits := func(b []byte) bool {
				if len(b) < 2 {
					return len(b) == 1 && b[0] == 0
				}
				l := len(b)
				switch pat {
				case 0, 1, 2:
					return b[0]|b[1] == 0
				case 3:
					return b[l-1]|b[l-2] == 0
				case 4:
					return b[0]&b[1] == 255
				}
				return b[l-1]&b[l-2] == 255
			}
			for i := 0; i < 200000; i++ {
				x.idA[i%3]++
				if i%3 != 0 {
					x.idA[3+i%5] ^= byte(i >> 3)
				}
				za := ref.SM2Z(x.idA, x.a.pub)
				if kind == 0 {
					if !fits(za) {
						continue
					}
				} else {
					n := x.n
					if kind != 1 {
						n = 1
					}
					k, s2, s3 := ref.SM2KAFrom(u, za, zb, x.ra.pub, rb, n)
					if !fits([][]byte{nil, k, s2, s3}[kind]) {
						continue
					}
				}
				check(c, x)
				c.Seen([]string{"special:digest", "special:key", "special:confirmation", "special:expected"}[kind], x.idA, u)
				return
			}
		}},
		{Name: "mismatch", Quick: 700, Thorough: 40000, Classes: []string{"refused:id", "refused:static", "refused:ephemeral", "refused:confirmation", "refused:private", "refused:confirmation2"}, Fn: func(c *mon.Ctx) {
			// the two sides disagree on one value: the initiator detects it
			x := draw(c)
			_, rb, s3in, s1, ret := responder(c, x, x.ra.pub)
			if ret != oc.SUCCESS {
				c.Failf("responder fails with %x", ret)
			}
			y := x
			what := ""
			yrb, ys1 := rb, s1
			switch c.Intn(13) {
			case 0:
				y.idA, what = sw.Mutate(c, x.idA), "id"
			case 1:
				y.idB, what = sw.Mutate(c, x.idB), "id"
			case 2:
				y.idA, y.idB, what = x.idB, x.idA, "id"
				if string(x.idA) == string(x.idB) {
					return
				}
			case 3:
				y.a.pub, what = mk(c).pub, "static"
			case 4:
				y.b.pub, what = mk(c).pub, "static"
			case 5:
				y.b.pub, what = ref.SM2.Neg(ref.Dec(x.b.pub)).Enc(), "static"
			case 6:
				y.ra.pub, what = mk(c).pub, "ephemeral"
			case 7:
				yrb, what = mk(c).pub, "ephemeral"
			case 8:
				yrb, what = ref.SM2.Neg(ref.Dec(rb)).Enc(), "ephemeral"
			case 9:
				ys1, what = flip(c, s1), "confirmation"
			case 10:
				ys1, what = sw.Mutate(c, s1), "confirmation"
			case 11:
				ys1, what = s3in, "confirmation"
			case 12:
				y.a, what = x.a, "private"
				y.a.d = c.Scalar(ref.SM2.N)
				y.a.db = sw.B32(y.a.d)
			}
			if len(y.idA) == 0 || len(y.idB) == 0 {
				what = "id"
			}
			if string(y.a.db) == string(x.a.db) && what == "private" {
				return
			}
			for _, p := range [][2][]byte{{y.a.pub, x.a.pub}, {y.b.pub, x.b.pub}, {y.ra.pub, x.ra.pub}, {yrb, rb}} {
				if (what == "static" || what == "ephemeral") && string(p[0]) != string(p[1]) {
					goto differs
				}
			}
			if what == "static" || what == "ephemeral" {
				return
			}
		differs:
			if c.Bool() {
				// the right values first: nothing may be remembered of them
				if _, _, ret := initiator(x, rb, s1); ret != oc.SUCCESS {
					c.Failf("initiator fails with %x", ret)
				}
				if ret := oc.KeyAgreement_responder_step2(s3in, s3in, T); ret != oc.SUCCESS {
					c.Failf("responder refuses the confirmation with %x", ret)
				}
			}
			k, so, ret := initiator(y, yrb, ys1)
			none(c, "initiator with a different "+what, ret, k, so)
			c.Seen("refused:"+what, x.a.db, rb, y.idA, y.idB, yrb, ys1)
			// the confirmation of the other direction
			for _, s := range [][]byte{flip(c, s3in), s1, s3in[:31], append(append([]byte{}, s3in...), 0), nil, {}, make([]byte, 32)} {
				ret := oc.KeyAgreement_responder_step2(s, s3in, T)
				none(c, "responder with a different confirmation", ret)
				ret = oc.KeyAgreement_responder_step2(s3in, s, T)
				none(c, "responder with a different confirmation", ret)
				c.Seen("refused:confirmation2", s, s3in)
			}
			for i := 0; i < 32; i++ {
				s := append([]byte{}, s3in...)
				s[i] ^= 1 << uint(c.Intn(8))
				none(c, "responder with a different confirmation", oc.KeyAgreement_responder_step2(s, s3in, T))
				none(c, "responder with a different confirmation", oc.KeyAgreement_responder_step2(s3in, s, T))
			}
		}},
		{Name: "special-shared", Quick: 300, Thorough: 10000, Classes: []string{"special-shared/initiator", "special-shared/responder"}, Fn: func(c *mon.Ctx) {
			// the peer's public key is chosen so that the shared point has leading zero bytes or is small
			cv := sw.SM2
			x := draw(c)
			if x.random == nil {
				x.random = sw.B32(c.Scalar(cv.N))
			}
			u := cv.Point(c)
			for c.Intn(4) != 0 && u.X.BitLen() > 248 && u.Y.BitLen() > 248 {
				u = cv.Point(c)
			}
			bar := func(b []byte) *big.Int {
				m := new(big.Int).Lsh(big.NewInt(1), 127)
				v := sw.Int(b[:32])
				return v.Mod(v, m).Add(v, m)
			}
			// peer public key for the holder of d and r
			peer := func(d, r *big.Int, own, other []byte) ref.Pt {
				t := new(big.Int).Mul(bar(own), r)
				t.Add(t, d).Mod(t, cv.N)
				if t.Sign() == 0 {
					return ref.Pt{}
				}
				return cv.Add(cv.Mul(u, t.ModInverse(t, cv.N)), cv.Neg(cv.Mul(ref.Dec(other), bar(other))))
			}
			rb := ref.SM2.MulG(sw.Int(x.random)).Enc()
			if q := peer(x.b.d, sw.Int(x.random), rb, x.ra.pub); !q.Inf() {
				pa := q.Enc()
				key, got, s3in, s1, ret := oc.KeyAgreement_responder_ElGamal_step1(x.idA, x.idB, x.b.db, x.b.pub, pa, x.ra.pub, uint16(x.n), x.random, T)
				if ret != oc.SUCCESS {
					c.Failf("responder fails with %x: %+v, peer %x", ret, x, pa)
				}
				wk, w2, w3 := ref.SM2KA(false, x.idA, x.idB, x.b.d, sw.Int(x.random), x.b.pub, pa, rb, x.ra.pub, x.n)
				c.Eq("responder's ephemeral key", got, rb)
				c.Eq("responder's key for the shared point "+mon.Hex(u.Enc()), key, wk)
				c.Eq("responder's confirmation", s1, w2)
				c.Eq("expected confirmation", s3in, w3)
				c.Seen("special-shared/responder", u.Enc(), pa)
			}
			if q := peer(x.a.d, x.ra.d, x.ra.pub, rb); !q.Inf() {
				x.b.pub = q.Enc()
				wk, w2, w3 := ref.SM2KA(true, x.idA, x.idB, x.a.d, x.ra.d, x.a.pub, x.b.pub, x.ra.pub, rb, x.n)
				key, so, ret := initiator(x, rb, w2)
				if ret != oc.SUCCESS {
					c.Failf("initiator fails with %x: %+v", ret, x)
				}
				c.Eq("initiator's key for the shared point "+mon.Hex(u.Enc()), key, wk)
				c.Eq("initiator's confirmation", so, w3)
				c.Seen("special-shared/initiator", u.Enc(), x.b.pub)
			}
		}},
		{Name: "infinity", Quick: 200, Thorough: 6000, Classes: []string{"infinite:own/responder", "infinite:own/initiator", "infinite:peer/responder", "infinite:peer/initiator", "doubled/responder", "doubled/initiator"}, Fn: func(c *mon.Ctx) {
			// values for which the shared point is infinite (no key may come out), and for which the sum of the peer's points is a doubling
			cv := sw.SM2
			x := draw(c)
			if x.random == nil {
				x.random = sw.B32(c.Scalar(cv.N))
			}
			if x.n > 200 {
				x.n = 16
			}
			bar := func(b []byte) *big.Int {
				m := new(big.Int).Lsh(big.NewInt(1), 127)
				v := sw.Int(b[:32])
				return v.Mod(v, m).Add(v, m)
			}
			minus := func(b []byte, k *big.Int) party {
				d := new(big.Int).Mul(bar(b), k)
				d.Neg(d).Mod(d, cv.N)
				return party{d, sw.B32(d), ref.SM2.MulG(d).Enc()}
			}
			rd := sw.Int(x.random)
			rb := ref.SM2.MulG(rd).Enc()
			resp := func(y run) (key, a, b, s []byte, ret uint16) {
				return responder(c, y, y.ra.pub)
			}
			if p := minus(rb, rd); p.d.Sign() != 0 {
				y := x
				y.b = p
				k, r, s, t, ret := resp(y)
				none(c, "responder with d + x r = 0", ret, k, r, s, t)
				c.Seen("infinite:own/responder", p.db, rb)
			}
			if p := minus(x.ra.pub, x.ra.d); p.d.Sign() != 0 {
				y := x
				y.a = p
				k, s, ret := initiator(y, rb, c.Bytes(32))
				none(c, "initiator with d + x r = 0", ret, k, s)
				// the confirmation value over the coordinates (0, 0)
				c.Seen("infinite:own/initiator", p.db, rb)
			}
			y := x
			y.a.pub = cv.Neg(cv.Mul(ref.Dec(x.ra.pub), bar(x.ra.pub))).Enc()
			k, r, s, t, ret := resp(y)
			none(c, "responder with an infinite sum of the peer's points", ret, k, r, s, t)
			c.Seen("infinite:peer/responder", y.a.pub, y.ra.pub)
			y = x
			y.b.pub = cv.Neg(cv.Mul(ref.Dec(rb), bar(rb))).Enc()
			k, s, ret = initiator(y, rb, c.Bytes(32))
			none(c, "initiator with an infinite sum of the peer's points", ret, k, s)
			c.Seen("infinite:peer/initiator", y.b.pub, rb)

			y = x
			y.a.pub = cv.Mul(ref.Dec(x.ra.pub), bar(x.ra.pub)).Enc()
			wk, w2, w3 := ref.SM2KA(false, y.idA, y.idB, y.b.d, rd, y.b.pub, y.a.pub, rb, y.ra.pub, y.n)
			k, r, s, t, ret = resp(y)
			if ret != oc.SUCCESS {
				c.Failf("responder fails with %x when the peer's points are equal", ret)
			}
			c.Eq("responder's ephemeral key", r, rb)
			c.Eq("responder's key (doubling)", k, wk)
			c.Eq("responder's confirmation (doubling)", t, w2)
			c.Eq("expected confirmation (doubling)", s, w3)
			c.Seen("doubled/responder", y.a.pub)
			y = x
			y.b.pub = cv.Mul(ref.Dec(rb), bar(rb)).Enc()
			wk, w2, w3 = ref.SM2KA(true, y.idA, y.idB, y.a.d, y.ra.d, y.a.pub, y.b.pub, y.ra.pub, rb, y.n)
			k, s, ret = initiator(y, rb, w2)
			if ret != oc.SUCCESS {
				c.Failf("initiator fails with %x when the peer's points are equal", ret)
			}
			c.Eq("initiator's key (doubling)", k, wk)
			c.Eq("initiator's confirmation (doubling)", s, w3)
			c.Seen("doubled/initiator", y.b.pub)
		}},
		{Name: "confirmation-bits", Quick: 3, Thorough: 60, Classes: []string{"refused:confirmation-bit"}, Fn: func(c *mon.Ctx) {
			x := draw(c)
			x.n = 16
			_, rb, s3in, s1, _ := responder(c, x, x.ra.pub)
			for i := 0; i < 256; i++ {
				s := append([]byte{}, s1...)
				s[i/8] ^= 1 << uint(i%8)
				if i%3 == c.I%3 {
					k, so, ret := initiator(x, rb, s)
					none(c, "initiator with one bit of the confirmation changed", ret, k, so)
				}
				s = append([]byte{}, s3in...)
				s[i/8] ^= 1 << uint(i%8)
				none(c, "responder with one bit of the confirmation changed", oc.KeyAgreement_responder_step2(s, s3in, T))
				c.Seen("refused:confirmation-bit", s)
			}
		}},
		{Name: "illegal", Quick: 500, Thorough: 20000, Classes: []string{"illegal:public", "illegal:id", "illegal:random"}, Fn: func(c *mon.Ctx) {
			x := draw(c)
			_, rb, _, s1, _ := responder(c, x, x.ra.pub)
			bad := func(p []byte) []byte {
				pt := ref.Dec(p)
				switch c.Intn(10) {
				case 0:
					return nil
				case 1:
					return p[:63]
				case 2:
					return append(append([]byte{}, p...), 0)
				case 3:
					return make([]byte, 64)
				case 4:
					return append([]byte{4}, p...)
				case 5:
					return pt.Enc33()
				case 6:
					o := append([]byte{}, p...)
					o[c.Intn(64)] ^= 1 << uint(c.Intn(8))
					return o
				case 7:
					sp := sw.SM2.LiftNear(c, big.NewInt(int64(c.Intn(1000))))
					return append(sw.B32(new(big.Int).Add(sp.X, ref.SM2.P)), sw.B32(sp.Y)...)
				case 8:
					return ref.K1.MulG(c.Scalar(ref.K1.N)).Enc()
				}
				return c.Bytes(64)
			}
			// each public key in turn, on each side
			for i := 0; i < 7; i++ {
				y := x
				ra, yrb := x.ra.pub, rb
				var b []byte
				switch i {
				case 0, 3:
					b = bad(y.a.pub)
					y.a.pub = b
				case 1, 4:
					b = bad(y.b.pub)
					y.b.pub = b
				case 2:
					b = bad(ra)
					ra = b
				case 5:
					b = bad(rb)
					yrb = b
				case 6:
					b = bad(ra)
					y.ra.pub = b
				}
				if i < 3 {
					k, r, s, t, ret := responder(c, y, ra)
					none(c, "responder with the public key "+mon.Hex(b), ret, k, r, s, t)
				} else {
					k, s, ret := initiator(y, yrb, s1)
					none(c, "initiator with the public key "+mon.Hex(b), ret, k, s)
				}
				c.Seen("illegal:public", i, b)
			}
			for _, b := range [][]byte{nil, {}, c.Bytes(8192), c.Bytes(8192 + c.Intn(60000))} {
				y := x
				y.idA = b
				k, r, s, t, ret := responder(c, y, x.ra.pub)
				none(c, "responder with an illegal identity", ret, k, r, s, t)
				k, s, ret = initiator(y, rb, s1)
				none(c, "initiator with an illegal identity", ret, k, s)
				y = x
				y.idB = b
				k, r, s, t, ret = responder(c, y, x.ra.pub)
				none(c, "responder with an illegal identity", ret, k, r, s, t)
				k, s, ret = initiator(y, rb, s1)
				none(c, "initiator with an illegal identity", ret, k, s)
				c.Seen("illegal:id", len(b))
			}
			for _, b := range [][]byte{{}, make([]byte, 32), sw.B32(ref.SM2.N), sw.B32(new(big.Int).Sub(sw.Two256, sw.One)), c.Bytes(31), c.Bytes(33), sw.B32(new(big.Int).Add(ref.SM2.N, sw.One))} {
				y := x
				y.random = b
				k, r, s, t, ret := oc.KeyAgreement_responder_ElGamal_step1(y.idA, y.idB, y.b.db, y.b.pub, y.a.pub, x.ra.pub, uint16(y.n), b, T)
				none(c, "responder with the randomness "+mon.Hex(b), ret, k, r, s, t)
				c.Seen("illegal:random", b)
			}
			for _, w := range []uint32{0, T + 1, T - 1, T - 2, uint32(c.U64())} {
				if w == T {
					continue
				}
				k, r, s, t, ret := oc.KeyAgreement_responder_step1(x.idA, x.idB, x.b.db, x.b.pub, x.a.pub, x.ra.pub, 16, w)
				if ret != oc.ECC_WRONG_TYPE {
					c.Failf("type %x: code %x", w, ret)
				}
				none(c, "wrong type", ret, k, r, s, t)
			}
		}},
	})
}
