// C03: public key recovery returns exactly the signer's key.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

// expected is what recovery must give; nil is a failure.
func expected(cv sw.Cv, sig, h []byte) []byte {
	if len(sig) != 65 || len(h) != 32 || sig[64] > 1 {
		return nil
	}
	r, s := sw.Int(sig[:32]), sw.Int(sig[32:64])
	if r.Sign() == 0 || s.Sign() == 0 || r.Cmp(cv.N) >= 0 || s.Cmp(cv.N) >= 0 {
		return nil
	}
	if cv.T != oc.ECC_CURVE_SM2_STANDARD {
		q, ok := cv.ECDSARecover(h, r, s, uint(sig[64]))
		if !ok {
			return nil
		}
		return q.Enc()
	}
	t := new(big.Int).Add(r, s)
	if t.Mod(t, cv.N).Sign() == 0 {
		return nil
	}
	x := new(big.Int).Sub(r, sw.Int(h))
	R, ok := cv.Lift(x.Mod(x, cv.N), uint(sig[64]))
	if !ok {
		return nil
	}
	q := cv.Mul(cv.Add(R, cv.Neg(cv.MulG(s))), t.ModInverse(t, cv.N))
	if q.Inf() {
		return nil
	}
	return q.Enc()
}

func check(c *mon.Ctx, cv sw.Cv, what string, sig, h []byte) []byte {
	want := expected(cv, sig, h)
	got, ret := oc.RecoverPubkey(sig, h, cv.T)
	if want == nil {
		if ret != oc.FAILURE || got != nil {
			c.Failf("%s: %s: recovery from %s of %s gives %s code %x, must fail", cv.Name, what, mon.Hex(sig), mon.Hex(h), mon.Hex(got), ret)
		}
		c.Seen("failed:"+what, cv.Name, sig, h)
		return nil
	}
	if ret != oc.SUCCESS || string(got) != string(want) {
		c.Failf("%s: %s: recovery from %x of %x gives %s code %x, want %x", cv.Name, what, sig, h, mon.Hex(got), ret, want)
	}
	c.Seen("recovered:"+what, cv.Name, sig, h)
	return got
}

func cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}

func main() {
	mon.Main("C03", []mon.Group{
		{Name: "genuine", Quick: 450, Thorough: 60000, Classes: []string{"recovered:genuine", "recovered:other-byte", "recovered:n-s"}, Fn: func(c *mon.Ctx) {
			cv := sw.Prime[c.I%3]
			_, db, q := cv.Key(c)
			h := cv.Hash(c)
			if c.Intn(16) == 0 {
				h = c.Related32(db, q.Enc())
			}
			sig, v, ret := oc.Signature(db, nil, h, cv.T)
			if ret != oc.SUCCESS || len(sig) != 64 {
				c.Failf("%s: no signature (%x) for key %x, message %x", cv.Name, ret, db, h)
			}
			got, ret := oc.RecoverPubkey(cat(sig, []byte{v}), h, cv.T)
			if ret != oc.SUCCESS || string(got) != string(q.Enc()) {
				c.Failf("%s: recovery from %x v=%d of %x gives %s code %x, the signer's key is %x", cv.Name, sig, v, h, mon.Hex(got), ret, q.Enc())
			}
			check(c, cv, "genuine", cat(sig, []byte{v}), h)
			other := check(c, cv, "other-byte", cat(sig, []byte{v ^ 1}), h)
			if other != nil && string(other) == string(q.Enc()) {
				c.Failf("%s: both recovery bytes give the same key", cv.Name)
			}
			if other != nil && oc.Verify(other, nil, h, sig, cv.T) != oc.SUCCESS {
				c.Failf("%s: key %x recovered from %x does not verify it", cv.Name, other, sig)
			}
			neg := new(big.Int).Sub(cv.N, sw.Int(sig[32:]))
			check(c, cv, "n-s", cat(sig[:32], sw.B32(neg), []byte{v ^ 1}), h)
			check(c, cv, "other-hash", cat(sig, []byte{v}), cv.Hash(c))
			c.Sample("%s signature %x v=%d of %x gives %x", cv.Name, sig, v, h, q.Enc())
		}},
		{Name: "crafted", Quick: 500, Thorough: 80000, Classes: []string{"failed:v", "failed:range", "failed:not-on-curve", "recovered:chosen", "failed:length", "failed:infinity"}, Fn: func(c *mon.Ctx) {
			cv := sw.Prime[c.I%3]
			h := cv.Hash(c)
			s := cv.Scalar(c)
			p := cv.Point(c)
			r := new(big.Int).Set(p.X)
			if cv.T == oc.ECC_CURVE_SM2_STANDARD {
				r.Add(r, sw.Int(h))
			}
			r.Mod(r, cv.N)
			v := byte(p.Y.Bit(0))
			sig := cat(sw.B32(r), sw.B32(s), []byte{v})
			check(c, cv, "chosen", sig, h)
			// equal parts
			check(c, cv, "equal", cat(sig[:32], sig[:32], sig[64:]), h)
			check(c, cv, "equal", sig, c.Related32(sig[:32], sig[32:64]))
			for _, b := range []byte{2, 3, 4, 27, 28, 31, 254, 255, byte(2 + c.Intn(254))} {
				check(c, cv, "v", cat(sig[:64], []byte{b}), h)
			}
			z := make([]byte, 32)
			top := sw.B32(new(big.Int).Sub(sw.Two256, sw.One))
			for _, bad := range [][]byte{z, sw.B32(cv.N), sw.B32(new(big.Int).Add(cv.N, sw.One)), top} {
				check(c, cv, "range", cat(bad, sig[32:]), h)
				check(c, cv, "range", cat(sig[:32], bad, sig[64:]), h)
				check(c, cv, "range", cat(bad, bad, sig[64:]), h)
			}
			if w := new(big.Int).Add(r, cv.N); w.Cmp(sw.Two256) < 0 {
				check(c, cv, "range", cat(sw.B32(w), sig[32:]), h)
			}
			// r with no point
			for i := 0; i < 3; i++ {
				rr := cv.Scalar(c)
				x := new(big.Int).Set(rr)
				if cv.T == oc.ECC_CURVE_SM2_STANDARD {
					x.Sub(x, sw.Int(h)).Mod(x, cv.N)
				}
				if _, ok := cv.Lift(x, 0); !ok {
					check(c, cv, "not-on-curve", cat(sw.B32(rr), sw.B32(s), []byte{byte(c.Intn(2))}), h)
				}
			}
			// the recovered point at infinity: sR = eG (ECDSA), R = sG (SM2)
			k := cv.Scalar(c)
			R := cv.MulG(k)
			if cv.T == oc.ECC_CURVE_SM2_STANDARD {
				r = new(big.Int).Add(R.X, sw.Int(h))
				r.Mod(r, cv.N)
				check(c, cv, "infinity", cat(sw.B32(r), sw.B32(k), []byte{byte(R.Y.Bit(0))}), h)
				// r + s = n
				ns := new(big.Int).Sub(cv.N, r)
				if ns.Sign() > 0 && ns.Cmp(cv.N) < 0 {
					check(c, cv, "infinity", cat(sw.B32(r), sw.B32(ns), []byte{byte(R.Y.Bit(0))}), h)
				}
			} else {
				r = new(big.Int).Mod(R.X, cv.N)
				e := new(big.Int).Mul(s, k)
				e.Mod(e, cv.N)
				check(c, cv, "infinity", cat(sw.B32(r), sw.B32(s), []byte{byte(R.Y.Bit(0))}), sw.B32(e))
				check(c, cv, "infinity-other", cat(sw.B32(r), sw.B32(s), []byte{byte(R.Y.Bit(0)) ^ 1}), sw.B32(e))
				check(c, cv, "chosen", cat(sw.B32(r), sw.B32(s), []byte{byte(R.Y.Bit(0))}), make([]byte, 32))
			}
			for _, b := range [][]byte{nil, {}, sig[:64], sig[1:], cat(sig, []byte{0}), c.Bytes(c.Intn(130))} {
				if len(b) != 65 {
					check(c, cv, "length", b, h)
				}
			}
			for _, b := range [][]byte{nil, {}, h[:31], h[1:], cat(h, []byte{0}), cat([]byte{0}, h), c.Bytes(33 + c.Intn(64))} {
				check(c, cv, "length", sig, b)
			}
		}},
		{Name: "mutated", Quick: 900, Thorough: 150000, Fn: func(c *mon.Ctx) {
			cv := sw.Prime[c.I%3]
			h := cv.Hash(c)
			p := cv.Point(c)
			r := new(big.Int).Set(p.X)
			if cv.T == oc.ECC_CURVE_SM2_STANDARD {
				r.Add(r, sw.Int(h))
			}
			sig := cat(sw.B32(r.Mod(r, cv.N)), sw.B32(cv.Scalar(c)), []byte{byte(c.Intn(2))})
			if c.Bool() {
				sig = sw.Mutate(c, sig)
			} else {
				h = sw.Mutate(c, h)
			}
			check(c, cv, "mutated", sig, h)
		}},
		{Name: "wrong-type", Quick: 60, Thorough: 400, Classes: []string{"wrong-type"}, Fn: func(c *mon.Ctx) {
			t := uint32(c.U64())
			if c.I < 7 {
				t = oc.ECC_CURVE_ED25519_NORMAL + uint32(c.I)
			}
			if t-oc.ECC_CURVE_SECP256K1 < 3 {
				return
			}
			got, ret := oc.RecoverPubkey(c.Bytes(65), c.Bytes(32), t)
			if got != nil || ret != oc.ECC_WRONG_TYPE {
				c.Failf("recovery with type %x: %s code %x", t, mon.Hex(got), ret)
			}
			c.Seen("wrong-type", t)
		}},
	})
}

var _ = ref.K1
