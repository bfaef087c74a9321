// C02: ECDSA verification accepts exactly the valid signatures.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

func verify(c *mon.Ctx, cv sw.Cv, what string, pub, h, sig []byte) {
	want := cv.ECDSAVerify(pub, h, sig)
	ret := oc.Verify(pub, nil, h, sig, cv.T)
	if want != (ret == oc.SUCCESS) || (!want && ret != oc.FAILURE) {
		c.Failf("%s: %s: verification gives %x, the standard says %v: key %s hash %s signature %s", cv.Name, what, ret, want, mon.Hex(pub), mon.Hex(h), mon.Hex(sig))
	}
	cl := "refused:" + what
	if want {
		cl = "accepted:" + what
	}
	c.Seen(cl, cv.Name, pub, h, sig)
}

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

// forge makes a valid signature with r = x(R) for a chosen R, any s and any hash: Q = (sR - eG)/r.
func forge(c *mon.Ctx, cv sw.Cv, R ref.Pt, s, e *big.Int) (pub, h, sig []byte) {
	r := new(big.Int).Mod(R.X, cv.N)
	if r.Sign() == 0 {
		r.SetInt64(1)
	}
	ri := new(big.Int).ModInverse(r, cv.N)
	q := cv.Add(cv.Mul(R, s), cv.Neg(cv.MulG(new(big.Int).Mod(e, cv.N))))
	q = cv.Mul(q, ri)
	return q.Enc(), sw.B32(e), cat(sw.B32(r), sw.B32(s))
}

func main() {
	mon.Main("C02", []mon.Group{
		{Name: "genuine", Quick: 500, Thorough: 60000, Classes: []string{"accepted:genuine", "accepted:n-s"}, Fn: func(c *mon.Ctx) {
			cv := sw.ECDSA[c.I%2]
			d, db, q := cv.Key(c)
			h := cv.Hash(c)
			if c.Intn(16) == 0 {
				h = c.Related32(db, q.Enc(), sw.B32(cv.G.X))
			}
			sig, _, _ := oc.Signature(db, nil, h, cv.T)
			if len(sig) != 64 { // signing is another property: sign here
				k := cv.Scalar(c)
				r := new(big.Int).Mod(cv.MulG(k).X, cv.N)
				s := new(big.Int).Mul(r, d)
				s.Add(s, sw.Int(h)).Mul(s, new(big.Int).ModInverse(k, cv.N)).Mod(s, cv.N)
				sig = cat(sw.B32(r), sw.B32(s))
			}
			verify(c, cv, "genuine", q.Enc(), h, sig)
			neg := new(big.Int).Sub(cv.N, sw.Int(sig[32:]))
			verify(c, cv, "n-s", q.Enc(), h, cat(sig[:32], sw.B32(neg)))
			verify(c, cv, "opposite key", cv.Neg(q).Enc(), h, sig)
			verify(c, cv, "another hash", q.Enc(), cv.Hash(c), sig)
			verify(c, cv, "other curve", q.Enc(), h, sig)
			other := sw.ECDSA[1-c.I%2]
			verify(c, other, "key of the other curve", q.Enc(), h, sig)
			c.Sample("%s key %x hash %x signature %x", cv.Name, q.Enc(), h, sig)
		}},
		{Name: "mutated", Quick: 1600, Thorough: 300000, Classes: []string{"refused:mutated"}, Fn: func(c *mon.Ctx) {
			cv := sw.ECDSA[c.I%2]
			s, e := cv.Scalar(c), sw.Int(cv.Hash(c))
			pub, h, sig := forge(c, cv, cv.Point(c), s, e)
			switch c.Intn(4) {
			case 0:
				pub = sw.Mutate(c, pub)
			case 1:
				h = sw.Mutate(c, h)
			default:
				sig = sw.Mutate(c, sig)
			}
			verify(c, cv, "mutated", pub, h, sig)
		}},
		{Name: "crafted", Quick: 1000, Thorough: 200000, Classes: []string{"accepted:chosen-point", "accepted:equal-parts", "accepted:x-above-n", "refused:infinity", "accepted:doubling", "refused:out-of-range", "refused:off-curve-key", "refused:key-not-reduced"}, Fn: func(c *mon.Ctx) {
			cv := sw.ECDSA[c.I%2]
			// any s in range and hash for a chosen random point
			s, e := cv.Scalar(c), sw.Int(cv.Hash(c))
			pub, h, sig := forge(c, cv, cv.Point(c), s, e)
			verify(c, cv, "chosen-point", pub, h, sig)
			// s equal to r, the hash, or their opposites; the hash equal to r
			switch p := cv.Point(c); c.Intn(6) {
			case 0:
				pub, h, sig = forge(c, cv, p, new(big.Int).Mod(p.X, cv.N), e)
			case 1:
				pub, h, sig = forge(c, cv, p, new(big.Int).Sub(cv.N, new(big.Int).Mod(p.X, cv.N)), e)
			case 2:
				if v := new(big.Int).Mod(e, cv.N); v.Sign() != 0 {
					pub, h, sig = forge(c, cv, p, v, e)
				}
			case 3:
				pub, h, sig = forge(c, cv, p, s, p.X)
			case 4:
				pub, h, sig = forge(c, cv, p, new(big.Int).Mod(p.X, cv.N), p.X)
			case 5:
				pub, h, sig = forge(c, cv, p, s, s)
			}
			verify(c, cv, "equal-parts", pub, h, sig)
			verify(c, cv, "hash-is-key", pub, c.Related32(pub), sig)
			verify(c, cv, "hash-is-signature", pub, c.Related32(sig), sig)
			// x of the random point between n and p
			x := new(big.Int).Add(cv.N, c.SmallX(new(big.Int).Sub(cv.P, cv.N)))
			p := cv.LiftNear(c, x)
			pub, h, sig2 := forge(c, cv, p, s, e)
			if p.X.Cmp(cv.N) >= 0 {
				verify(c, cv, "x-above-n", pub, h, sig2)
			}
			// r given unreduced
			if v := new(big.Int).Add(sw.Int(sig2[:32]), cv.N); v.Cmp(sw.Two256) < 0 {
				verify(c, cv, "out-of-range", pub, h, cat(sw.B32(v), sig2[32:]))
			}
			if v := new(big.Int).Add(sw.Int(sig2[32:]), cv.N); v.Cmp(sw.Two256) < 0 {
				verify(c, cv, "out-of-range", pub, h, cat(sig2[:32], sw.B32(v)))
			}
			// a sum at infinity: e = -rd
			d, _, q := cv.Key(c)
			r := cv.Scalar(c)
			e2 := new(big.Int).Mul(r, d)
			e2.Neg(e2).Mod(e2, cv.N)
			verify(c, cv, "infinity", q.Enc(), sw.B32(e2), cat(sw.B32(r), sw.B32(s)))
			// the two summands equal: e = rd, r = x(2 r d / s G)
			k := cv.Scalar(c) // R = kG, u1 = u2 d = k/2
			R := cv.MulG(k)
			r = new(big.Int).Mod(R.X, cv.N)
			if r.Sign() != 0 {
				half := new(big.Int).Mul(k, new(big.Int).ModInverse(big.NewInt(2), cv.N))
				half.Mod(half, cv.N)
				e2.Mul(half, s).Mod(e2, cv.N)
				// u2 d = half: d = half s / r
				d2 := new(big.Int).Mul(half, s)
				d2.Mul(d2, new(big.Int).ModInverse(r, cv.N)).Mod(d2, cv.N)
				if d2.Sign() != 0 {
					verify(c, cv, "doubling", cv.MulG(d2).Enc(), sw.B32(e2), cat(sw.B32(r), sw.B32(s)))
				}
			}
			// s at the ends, hash zero: with r from the random point
			for _, sv := range []*big.Int{sw.One, new(big.Int).Sub(cv.N, sw.One)} {
				pub, h, sig := forge(c, cv, cv.Point(c), sv, e)
				verify(c, cv, "s-at-end", pub, h, sig)
			}
			pub, h, sig = forge(c, cv, cv.Point(c), s, new(big.Int))
			verify(c, cv, "zero-hash", pub, h, sig)
			// zero and out of range
			z := make([]byte, 32)
			for _, bad := range [][]byte{cat(z, sig[32:]), cat(sig[:32], z), cat(z, z), cat(sw.B32(cv.N), sig[32:]), cat(sig[:32], sw.B32(cv.N)), cat(sw.B32(new(big.Int).Sub(sw.Two256, sw.One)), sig[32:])} {
				verify(c, cv, "out-of-range", pub, h, bad)
			}
			// keys that are not on the curve, not reduced, or at infinity
			verify(c, cv, "off-curve-key", make([]byte, 64), h, sig)
			off := append([]byte{}, pub...)
			off[32+c.Intn(32)] ^= 1 << uint(c.Intn(8))
			verify(c, cv, "off-curve-key", off, h, sig)
			for i := 0; i < 2; i++ {
				sp := cv.LiftNear(c, big.NewInt(int64(c.Intn(1000))))
				if v := new(big.Int).Add(sp.X, cv.P); v.Cmp(sw.Two256) < 0 {
					// a genuine key with small x, given as x + p: forge for this key by solving for the hash
					k, s := cv.Scalar(c), cv.Scalar(c)
					u2 := cv.Scalar(c)
					R := cv.Add(cv.MulG(k), cv.Mul(sp, u2))
					if R.Inf() {
						continue
					}
					r := new(big.Int).Mod(R.X, cv.N)
					s.Mul(r, new(big.Int).ModInverse(u2, cv.N)).Mod(s, cv.N)
					e := new(big.Int).Mul(k, s)
					e.Mod(e, cv.N)
					if r.Sign() == 0 || s.Sign() == 0 {
						continue
					}
					sg := cat(sw.B32(r), sw.B32(s))
					verify(c, cv, "small-x-key", sp.Enc(), sw.B32(e), sg)
					verify(c, cv, "key-not-reduced", cat(sw.B32(v), sw.B32(sp.Y)), sw.B32(e), sg)
				}
			}
			c.Sample("%s crafted: random point x in [n,p), sum at infinity, equal summands, ends of the ranges", cv.Name)
		}},
		{Name: "lengths", Quick: 160, Thorough: 10000, Classes: []string{"refused:length"}, Fn: func(c *mon.Ctx) {
			cv := sw.ECDSA[c.I%2]
			pub, h, sig := forge(c, cv, cv.Point(c), cv.Scalar(c), sw.Int(cv.Hash(c)))
			for _, b := range [][]byte{nil, {}} {
				verify(c, cv, "length", b, h, sig)
				verify(c, cv, "length", pub, b, sig)
				verify(c, cv, "length", pub, h, b)
			}
			n := c.Intn(140)
			fit := func(b []byte) []byte {
				o := make([]byte, n)
				copy(o, b)
				return o
			}
			fitR := func(b []byte) []byte {
				o := make([]byte, n)
				if n >= len(b) {
					copy(o[n-len(b):], b)
				} else {
					copy(o, b[len(b)-n:])
				}
				return o
			}
			for _, f := range []func([]byte) []byte{fit, fitR} {
				verify(c, cv, "length", f(pub), h, sig)
				verify(c, cv, "length", pub, f(h), sig)
				verify(c, cv, "length", pub, h, f(sig))
			}
			verify(c, cv, "length", cat([]byte{4}, pub), h, sig)
			verify(c, cv, "length", cv.G.Enc33(), h, sig)
			verify(c, cv, "length", pub, h, cat(sig, []byte{byte(c.Intn(2))}))
		}},
	})
}
