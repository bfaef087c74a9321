// C08: point arithmetic on the short-Weierstrass curves.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

var names = map[uint32]string{oc.ECC_CURVE_SECP256K1: "secp256k1", oc.ECC_CURVE_SECP256R1: "secp256r1", oc.ECC_CURVE_SM2_STANDARD: "sm2_std"}

func pasta(cv sw.Cv) bool { return cv.T == oc.ECC_CURVE_PASTA }

// form gives one of the accepted encodings.
func form(c *mon.Ctx, p ref.Pt) []byte {
	if p.Inf() {
		return make([]byte, 64)
	}
	switch c.Intn(4) {
	case 0:
		return p.Enc33()
	case 1:
		return append([]byte{4}, p.Enc()...)
	}
	return p.Enc()
}

func enc(p ref.Pt) []byte {
	if p.Inf() {
		return nil
	}
	return p.Enc()
}

func scalar(c *mon.Ctx, cv sw.Cv) *big.Int {
	switch c.Intn(9) {
	case 0:
		return big.NewInt(int64(c.Intn(18)))
	case 1: // around multiples of the order
		k := new(big.Int).Mul(cv.N, big.NewInt(int64(1+c.Intn(3))))
		k.Add(k, big.NewInt(int64(c.Intn(9)-4)))
		if k.BitLen() <= 256 {
			return k
		}
	case 2:
		return new(big.Int).Sub(sw.Two256, big.NewInt(int64(1+c.Intn(5))))
	case 3:
		return c.Big(sw.Two256)
	case 4: // digits of a window
		b := c.Bytes(32)
		for i := range b {
			if c.Bool() {
				b[i] = []byte{0, 0xff, 0x01, 0x80, 0x10, 0x0f, 0xf0}[c.Intn(7)]
			}
		}
		return sw.Int(b)
	}
	return c.Scalar0(cv.N)
}

func point(c *mon.Ctx, cv sw.Cv) ref.Pt {
	if c.Intn(10) == 0 {
		return ref.Pt{}
	}
	return cv.Point(c)
}

func kind(p, q, r ref.Pt, cv sw.Cv) string {
	switch {
	case p.Inf() || q.Inf():
		return "identity"
	case r.Inf():
		return "opposite"
	case p.Eq(q):
		return "equal"
	}
	return "distinct"
}

func code(want []byte) uint16 {
	if want == nil {
		return oc.FAILURE
	}
	return oc.SUCCESS
}

func add(c *mon.Ctx, cv sw.Cv, p, q ref.Pt) {
	r := cv.Add(p, q)
	want := enc(r)
	a, b := form(c, p), form(c, q)
	got, ret := oc.Point_add(a, b, cv.T)
	if string(got) != string(want) || ret != code(want) {
		c.Failf("%s: %x + %x gives %s code %x, want %s", cv.Name, a, b, mon.Hex(got), ret, mon.Hex(want))
	}
	if n := names[cv.T]; n != "" && len(a) == 64 && len(b) == 64 {
		got, inf := oc.Add(a, b, n)
		if string(got) != string(want) || inf != r.Inf() {
			c.Failf("Add on %s: %x + %x gives %s %v, want %s", cv.Name, a, b, mon.Hex(got), inf, mon.Hex(want))
		}
	}
	c.Seen(cv.Name+"/add "+kind(p, q, r, cv), a, b)
}

func mul(c *mon.Ctx, cv sw.Cv, p ref.Pt, k *big.Int) {
	r := cv.Mul(p, new(big.Int).Mod(k, cv.N))
	want := enc(r)
	a, s := form(c, p), sw.B32(k)
	got, ret := oc.Point_mul(a, s, cv.T)
	if string(got) != string(want) || ret != code(want) {
		c.Failf("%s: %x times %x gives %s code %x, want %s", cv.Name, s, a, mon.Hex(got), ret, mon.Hex(want))
	}
	if n := names[cv.T]; n != "" && len(a) == 64 {
		got, inf := oc.Mul(a, s, n)
		if string(got) != string(want) || inf != r.Inf() {
			c.Failf("Mul on %s: %x times %x gives %s %v, want %s", cv.Name, s, a, mon.Hex(got), inf, mon.Hex(want))
		}
	}
	cl := "mul"
	if r.Inf() {
		cl = "mul to infinity"
	} else if k.Cmp(cv.N) > 0 {
		cl = "mul above the order"
	}
	c.Seen(cv.Name+"/"+cl, a, s)
}

func mulAdd(c *mon.Ctx, cv sw.Cv, p ref.Pt, k *big.Int) {
	kG := cv.MulG(new(big.Int).Mod(k, cv.N))
	r := cv.Add(kG, p)
	want := enc(r)
	a, s := p.Enc(), sw.B32(k)
	if p.Inf() {
		a = make([]byte, 64)
	}
	if pasta(cv) && !p.Inf() {
		a = form(c, p)
	}
	got, inf := oc.Point_mulBaseG_add(a, s, cv.T)
	if string(got) != string(want) || inf != r.Inf() {
		c.Failf("%s: %x times G plus %x gives %s %v, want %s", cv.Name, s, a, mon.Hex(got), inf, mon.Hex(want))
	}
	if n := names[cv.T]; n != "" {
		got, inf := oc.MulBaseG_Add(a, s, n)
		if string(got) != string(want) || inf != r.Inf() {
			c.Failf("MulBaseG_Add on %s: %x times G plus %x gives %s %v, want %s", cv.Name, s, a, mon.Hex(got), inf, mon.Hex(want))
		}
	}
	c.Seen(cv.Name+"/multiply and add "+kind(kG, p, r, cv), a, s)
}

func mulBase(c *mon.Ctx, cv sw.Cv, k *big.Int) {
	lim := cv.N
	if pasta(cv) {
		lim = new(big.Int).Lsh(sw.One, 254)
	}
	var want []byte
	if k.Sign() > 0 && k.Cmp(lim) < 0 {
		p := cv.MulG(new(big.Int).Mod(k, cv.N))
		if p.Inf() {
			return
		}
		want = p.Enc33()
	}
	if pasta(cv) && want == nil && k.Sign() > 0 {
		return
	}
	got := oc.Point_mulBaseG(sw.B32(k), cv.T)
	if string(got) != string(want) || (got == nil) != (want == nil) {
		c.Failf("%s: %x times G gives %s, want %s", cv.Name, k, mon.Hex(got), mon.Hex(want))
	}
	cl := "base"
	if want == nil {
		cl = "base refused"
	}
	c.Seen(cv.Name+"/"+cl, k)
}

// refuse gives a string that is not an encoding of a point.
func refuse(c *mon.Ctx, cv sw.Cv) ([]byte, string) {
	p := cv.Point(c)
	e := p.Enc()
	switch c.Intn(9) {
	case 0:
		k := c.Intn(512)
		e[k/8] ^= 1 << uint(k%8)
		x, y := sw.Int(e[:32]), sw.Int(e[32:])
		if cv.On(ref.Pt{X: x, Y: y}) {
			e[31] ^= 1
			e[0] = 0xff
		}
		if c.Bool() {
			e = append([]byte{4}, e...)
		}
		return e, "off the curve"
	case 1: // x plus p, or y plus p, where it fits
		x := new(big.Int).Add(c.SmallX(new(big.Int).Sub(sw.Two256, cv.P)), new(big.Int))
		for {
			if x.Cmp(cv.P) >= 0 {
				x.SetInt64(0)
			}
			if q, ok := cv.Lift(x, uint(c.Intn(2))); ok {
				xp := new(big.Int).Add(q.X, cv.P)
				if xp.BitLen() > 256 {
					return make([]byte, 63), "length"
				}
				b := append(sw.B32(xp), sw.B32(q.Y)...)
				if c.Bool() {
					b = append([]byte{2 + byte(q.Y.Bit(0))}, sw.B32(xp)...)
				}
				return b, "not reduced"
			}
			x.Add(x, sw.One)
		}
	case 2:
		yp := new(big.Int).Add(p.Y, cv.P)
		if yp.BitLen() > 256 {
			return make([]byte, 65), "prefix"
		}
		return append(sw.B32(p.X), sw.B32(yp)...), "not reduced"
	case 3:
		return e[:c.Intn(64)], "length"
	case 4:
		return append(e, c.Bytes(2+c.Intn(40))...), "length"
	case 5:
		pre := byte(c.Intn(256))
		if pre == 4 {
			pre = 5
		}
		return append([]byte{pre}, e...), "prefix"
	case 6:
		b := p.Enc33()
		for b[0] == 2 || b[0] == 3 {
			b[0] = byte(c.Intn(256))
		}
		return b, "prefix"
	case 7:
		for x := c.Big(cv.P); ; x.Add(x, sw.One) {
			x.Mod(x, cv.P)
			if _, ok := cv.Lift(x, 0); !ok && x.Cmp(cv.P) < 0 {
				if c.Bool() {
					return append(sw.B32(x), sw.B32(c.Big(cv.P))...), "off the curve"
				}
				return append([]byte{2 + byte(c.Intn(2))}, sw.B32(x)...), "off the curve"
			}
		}
	}
	// on the twist or another curve with the same a (invalid curve attack)
	b := append(e[:32:32], sw.B32(new(big.Int).Mod(new(big.Int).Add(p.Y, sw.One), cv.P))...)
	return b, "off the curve"
}

func main() {
	var groups []mon.Group
	for _, cv := range sw.All {
		cv := cv
		n := cv.Name
		slow := 1
		if pasta(cv) {
			slow = 1
		}
		groups = append(groups,
			mon.Group{Name: n + "-add", Quick: 3000 / slow, Thorough: 200000, Classes: []string{n + "/add identity", n + "/add opposite", n + "/add equal", n + "/add distinct"}, Fn: func(c *mon.Ctx) {
				p, q := point(c, cv), point(c, cv)
				if c.Intn(4) == 0 && !p.Inf() {
					q = cv.WordsDiff(c, p)
				}
				add(c, cv, p, q)
				if r := cv.Add(p, q); !r.Inf() {
					// a sum of a special shape
					add(c, cv, r, cv.Neg(q))
				}
				switch c.Intn(3) {
				case 0:
					add(c, cv, p, p)
				case 1:
					add(c, cv, p, cv.Neg(p))
				default:
					add(c, cv, p, ref.Pt{})
					add(c, cv, ref.Pt{}, p)
				}
				c.Sample("%s: %x + %x", n, enc(p), enc(q))
			}},
			mon.Group{Name: n + "-mul", Quick: 700, Thorough: 50000, Classes: []string{n + "/mul", n + "/mul to infinity", n + "/mul above the order"}, Fn: func(c *mon.Ctx) {
				p, k := point(c, cv), scalar(c, cv)
				if c.I < 64 {
					k = big.NewInt(int64(c.I))
				} else if c.I < 128 {
					k = new(big.Int).Sub(cv.N, big.NewInt(int64(c.I-96)))
				}
				mul(c, cv, p, k)
				if km := new(big.Int).Mod(k, cv.N); km.Sign() != 0 && !p.Inf() && c.Bool() {
					// a product of a special shape
					mul(c, cv, cv.Mul(p, new(big.Int).ModInverse(km, cv.N)), k)
				}
				c.Sample("%s: %x times %x", n, k, enc(p))
			}},
			mon.Group{Name: n + "-base", Quick: 700, Thorough: 50000, Classes: []string{n + "/base", n + "/base refused", n + "/multiply and add identity", n + "/multiply and add opposite", n + "/multiply and add equal", n + "/multiply and add distinct"}, Fn: func(c *mon.Ctx) {
				k := scalar(c, cv)
				mulBase(c, cv, k)
				mulAdd(c, cv, point(c, cv), k)
				if km := new(big.Int).Mod(k, cv.N); c.Bool() {
					// a result of a special shape
					mulAdd(c, cv, cv.Add(cv.Point(c), cv.Neg(cv.MulG(km))), k)
				}
				if c.Intn(4) == 0 {
					km := new(big.Int).Mod(k, cv.N)
					kG := cv.MulG(km)
					mulAdd(c, cv, kG, k)
					mulAdd(c, cv, cv.Neg(kG), k)
				}
			}},
			mon.Group{Name: n + "-digits", Quick: 512, Thorough: 65536, Classes: []string{n + "/base"}, Fn: func(c *mon.Ctx) {
				// one digit at one place, over every place
				k := new(big.Int).Lsh(big.NewInt(int64(c.I/256*37%255+1)), uint(c.I%256))
				k.And(k, new(big.Int).Sub(sw.Two256, sw.One))
				mulBase(c, cv, k)
				mul(c, cv, cv.Point(c), k)
			}},
			mon.Group{Name: n + "-refused", Quick: 3000, Thorough: 100000, Classes: []string{n + "/refused off the curve", n + "/refused length", n + "/refused prefix", n + "/refused not reduced"}, Fn: func(c *mon.Ctx) {
				bad, why := refuse(c, cv)
				good := form(c, cv.Point(c))
				s := sw.B32(cv.Scalar(c))
				if got, ret := oc.Point_add(bad, good, cv.T); got != nil || ret != oc.FAILURE {
					c.Failf("%s: addition of %x (%s) gives %s code %x", n, bad, why, mon.Hex(got), ret)
				}
				if got, ret := oc.Point_add(good, bad, cv.T); got != nil || ret != oc.FAILURE {
					c.Failf("%s: addition to %x (%s) gives %s code %x", n, bad, why, mon.Hex(got), ret)
				}
				if got, ret := oc.Point_mul(bad, s, cv.T); got != nil || ret != oc.FAILURE {
					c.Failf("%s: multiplication of %x (%s) gives %s code %x", n, bad, why, mon.Hex(got), ret)
				}
				if got, inf := oc.Point_mulBaseG_add(bad, s, cv.T); got != nil || inf {
					c.Failf("%s: multiplication and addition of %x (%s) gives %s %v", n, bad, why, mon.Hex(got), inf)
				}
				short := c.Bytes(c.Intn(70))
				if len(short) != 32 {
					if got, ret := oc.Point_mul(good, short, cv.T); got != nil || ret != oc.FAILURE {
						c.Failf("%s: scalar of %d bytes gives %s", n, len(short), mon.Hex(got))
					}
					if got, inf := oc.Point_mulBaseG_add(cv.G.Enc(), short, cv.T); got != nil || inf {
						c.Failf("%s: scalar of %d bytes gives %s", n, len(short), mon.Hex(got))
					}
					if got := oc.Point_mulBaseG(short, cv.T); got != nil {
						c.Failf("%s: scalar of %d bytes gives %s", n, len(short), mon.Hex(got))
					}
				}
				c.Seen(n+"/refused "+why, bad)
			}})
	}
	mon.Main("C08", groups)
}
