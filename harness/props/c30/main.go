// C30: the low-level Edwards25519 package.
package main

import (
	"math/big"

	ew "github.com/blocktree/go-owcrypt/eddsa/edwards25519"

	"owverif/internal/ed"
	"owverif/internal/mon"
	"owverif/internal/ref"
)

var shift = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

func val(f *ew.FieldElement) *big.Int {
	v := new(big.Int)
	for i := 9; i >= 0; i-- {
		v.Add(v, new(big.Int).Lsh(big.NewInt(int64(f[i])), shift[i]))
	}
	return v.Mod(v, ref.P25)
}

// loose is a representation whose limbs are below lim/16 times 2^26 or 2^25.
func loose(c *mon.Ctx, lim int64) ew.FieldElement {
	var f ew.FieldElement
	mode := c.Intn(5)
	for i := range f {
		b := int64(1) << 26 * lim / 16
		if i&1 == 1 {
			b = int64(1) << 25 * lim / 16
		}
		var v int64
		switch mode {
		case 0: // extreme
			v = []int64{0, 1, -1, b - 1, 1 - b, b / 2, -b / 2, b - 2}[c.Intn(8)]
		case 1:
			v = b - 1
		case 2:
			v = 1 - b
		default:
			v = int64(c.U64()%uint64(2*b-1)) - (b - 1)
		}
		f[i] = int32(v)
	}
	if mode == 3 && c.Bool() { // the limbs of a special number
		var b [32]byte
		n := new(big.Int).Add(c.SmallX(ref.P25), big.NewInt(0))
		if c.Intn(3) == 0 {
			n = new(big.Int).Add(ref.P25, big.NewInt(int64(c.Intn(19))))
		}
		copy(b[:], mon.LE(n, 32))
		ew.FeFromBytes(&f, &b)
	}
	return f
}

func main() {
	P, L := ref.P25, ref.L25
	mul := func(a, b *big.Int) *big.Int { v := new(big.Int).Mul(a, b); return v.Mod(v, P) }
	fe := func(c *mon.Ctx, what string, f *ew.FieldElement, want *big.Int) {
		if g := val(f); g.Cmp(new(big.Int).Mod(want, P)) != 0 {
			c.Failf("%s: got %x, want %x (limbs %v)", what, g, new(big.Int).Mod(want, P), *f)
		}
		var b [32]byte
		ew.FeToBytes(&b, f)
		if string(b[:]) != string(mon.LE(new(big.Int).Mod(want, P), 32)) {
			c.Failf("%s: encoded as %x, want %x", what, b, mon.LE(new(big.Int).Mod(want, P), 32))
		}
	}
	arr := func(b []byte) *[32]byte { var a [32]byte; copy(a[:], b); return &a }
	ext := func(c *mon.Ctx, p ref.Ed) *ew.ExtendedGroupElement {
		// the point in random projective coordinates
		var e ew.ExtendedGroupElement
		z := c.Scalar(P)
		for i, v := range []*big.Int{mul(p.X, z), mul(p.Y, z), z, mul(mul(p.X, p.Y), z)} {
			ew.FeFromBytes([]*ew.FieldElement{&e.X, &e.Y, &e.Z, &e.T}[i], arr(mon.LE(v, 32)))
		}
		return &e
	}
	mon.Main("C30", []mon.Group{
		{Name: "field", Quick: 120000, Thorough: 20000000, Classes: []string{"mul", "square", "square2", "add", "sub", "neg", "invert", "tobytes", "frombytes", "cmove", "invert zero"}, Fn: func(c *mon.Ctx) {
			f, g := loose(c, 26), loose(c, 26)
			a, b := val(&f), val(&g)
			var h ew.FieldElement
			ew.FeMul(&h, &f, &g)
			fe(c, "FeMul", &h, mul(a, b))
			c.Seen("mul", a, b, f, g)
			h = f
			ew.FeMul(&h, &h, &g)
			fe(c, "FeMul aliased", &h, mul(a, b))
			h = g
			ew.FeMul(&h, &f, &h)
			fe(c, "FeMul aliased", &h, mul(a, b))
			h = f
			ew.FeMul(&h, &h, &h)
			fe(c, "FeMul aliased", &h, mul(a, a))
			ew.FeSquare(&h, &f)
			fe(c, "FeSquare", &h, mul(a, a))
			c.Seen("square", f)
			h = g
			ew.FeSquare(&h, &h)
			fe(c, "FeSquare aliased", &h, mul(b, b))
			ew.FeSquare2(&h, &f)
			fe(c, "FeSquare2", &h, new(big.Int).Lsh(mul(a, a), 1))
			c.Seen("square2", f)
			f, g = loose(c, 16), loose(c, 8) // FeToBytes takes sums up to 1.1 * 2^26
			f, g = half(f), half(g)
			a, b = val(&f), val(&g)
			ew.FeAdd(&h, &f, &g)
			fe(c, "FeAdd", &h, new(big.Int).Add(a, b))
			ew.FeSub(&h, &f, &g)
			fe(c, "FeSub", &h, new(big.Int).Sub(a, b))
			ew.FeNeg(&h, &f)
			fe(c, "FeNeg", &h, new(big.Int).Neg(a))
			for _, o := range []struct {
				n    string
				f    func(h, f, g *ew.FieldElement)
				want *big.Int
			}{{"FeAdd", ew.FeAdd, new(big.Int).Add(a, b)}, {"FeSub", ew.FeSub, new(big.Int).Sub(a, b)}} {
				h = f
				o.f(&h, &h, &g)
				fe(c, o.n+" into the first operand", &h, o.want)
				h = g
				o.f(&h, &f, &h)
				fe(c, o.n+" into the second operand", &h, o.want)
			}
			h = f
			ew.FeAdd(&h, &h, &h)
			fe(c, "FeAdd to itself", &h, new(big.Int).Add(a, a))
			h = f
			ew.FeSub(&h, &h, &h)
			fe(c, "FeSub from itself", &h, big.NewInt(0))
			h = f
			ew.FeNeg(&h, &h)
			fe(c, "FeNeg in place", &h, new(big.Int).Neg(a))
			h = f
			ew.FeCopy(&h, &h)
			ew.FeCMove(&h, &h, int32(c.I&1))
			if h != f {
				c.Failf("FeCopy or FeCMove of %x onto itself gives %x", f, h)
			}
			h = g
			ew.FeSquare2(&h, &h)
			fe(c, "FeSquare2 in place", &h, new(big.Int).Lsh(mul(b, b), 1))
			c.Seen("add", f, g)
			c.Seen("sub", f, g)
			c.Seen("neg", f)
			h = f
			ew.FeCMove(&h, &g, int32(c.I&1))
			if c.I&1 == 1 && h != g || c.I&1 == 0 && h != f {
				c.Failf("FeCMove")
			}
			c.Seen("cmove", f, g, c.I&1)
			h = f
			ew.FeCopy(&h, &g)
			if h != g {
				c.Failf("FeCopy")
			}
			f = loose(c, 17)
			a = val(&f)
			fe(c, "FeToBytes", &f, a)
			if n := ew.FeIsNegative(&f); uint(n) != a.Bit(0) {
				c.Failf("FeIsNegative of %x: %d", a, n)
			}
			if n := ew.FeIsNonZero(&f); (n != 0) != (a.Sign() != 0) {
				c.Failf("FeIsNonZero of %x: %d", a, n)
			}
			c.Seen("tobytes", f)
			s := c.Bytes(32)
			if c.Bool() {
				s = mon.LE(new(big.Int).Sub(ed.Two255, big.NewInt(int64(1+c.Intn(40)))), 32)
			}
			ew.FeFromBytes(&f, arr(s))
			v := mon.FromLE(s)
			v.SetBit(v, 255, 0)
			fe(c, "FeFromBytes", &f, v)
			c.Seen("frombytes", s)
			if c.I%8 == 0 {
				f = loose(c, 16)
				if c.Intn(50) == 0 {
					ew.FeZero(&f)
				}
				a = val(&f)
				ew.FeInvert(&h, &f)
				inv := new(big.Int)
				if a.Sign() != 0 {
					inv.ModInverse(a, P)
				} else {
					c.Seen("invert zero", f)
				}
				fe(c, "FeInvert", &h, inv)
				ew.FeInvert(&f, &f)
				fe(c, "FeInvert aliased", &f, inv)
				c.Seen("invert", a)
			}
			if c.I == 0 {
				ew.FeZero(&f)
				fe(c, "FeZero", &f, big.NewInt(0))
				ew.FeOne(&f)
				fe(c, "FeOne", &f, big.NewInt(1))
				fe(c, "the Montgomery curve's A", &ew.A, big.NewInt(486662))
				fe(c, "SqrtM1 squared", func() *ew.FieldElement { ew.FeSquare(&h, &ew.SqrtM1); return &h }(), big.NewInt(-1))
			}
			c.Sample("field operands %x and %x", a, b)
		}},
		{Name: "scalars", Quick: 120000, Thorough: 20000000, Classes: []string{"muladd", "reduce"}, Fn: func(c *mon.Ctx) {
			a, b, d := ed.Scalar32(c), ed.Scalar32(c), ed.Scalar32(c)
			var s [32]byte
			ew.ScMulAdd(&s, arr(a), arr(b), arr(d))
			w := new(big.Int).Mul(mon.FromLE(a), mon.FromLE(b))
			w.Add(w, mon.FromLE(d)).Mod(w, L)
			if string(s[:]) != string(mon.LE(w, 32)) {
				c.Failf("ScMulAdd of %x %x %x gives %x, want %x", a, b, d, s, mon.LE(w, 32))
			}
			c.Seen("muladd", a, b, d)
			t := *arr(a)
			ew.ScMulAdd(&t, &t, &t, &t)
			w.Mul(mon.FromLE(a), mon.FromLE(a)).Add(w, mon.FromLE(a)).Mod(w, L)
			if string(t[:]) != string(mon.LE(w, 32)) {
				c.Failf("ScMulAdd in place of %x gives %x, want %x", a, t, mon.LE(w, 32))
			}
			var wide [64]byte
			switch c.Intn(4) {
			case 0:
				copy(wide[:], a)
				copy(wide[32:], b)
			case 1: // around multiples of the order
				m := new(big.Int).Mul(L, c.Big(new(big.Int).Lsh(ed.One, 259)))
				m.Add(m, big.NewInt(int64(c.Intn(5)-2)))
				m.Abs(m).Mod(m, new(big.Int).Lsh(ed.One, 512))
				copy(wide[:], mon.LE(m, 64))
			case 2:
				m := c.Scalar0(new(big.Int).Lsh(ed.One, 512))
				copy(wide[:], mon.LE(m, 64))
			default:
				copy(wide[:], c.Bytes(64))
			}
			ew.ScReduce(&s, &wide)
			w = mon.FromLE(wide[:])
			w.Mod(w, L)
			if string(s[:]) != string(mon.LE(w, 32)) {
				c.Failf("ScReduce of %x gives %x, want %x", wide, s, mon.LE(w, 32))
			}
			c.Seen("reduce", wide[:])
		}},
		{Name: "group", Quick: 5000, Thorough: 600000, Classes: []string{"base", "double-scalar", "two-point", "double", "encode"}, Fn: func(c *mon.Ctx) {
			k := ed.Scalar32(c)
			k[31] &= 0x7f
			var h ew.ExtendedGroupElement
			ew.GeScalarMultBase(&h, arr(k))
			var out [32]byte
			h.ToBytes(&out)
			want := ref.EdMulBase(mon.FromLE(k))
			c.Eq("GeScalarMultBase of "+mon.Hex(k), out[:], want.Enc())
			if mul(val(&h.X), val(&h.Y)).Cmp(mul(val(&h.Z), val(&h.T))) != 0 {
				c.Failf("GeScalarMultBase of %x: XY != ZT", k)
			}
			c.Seen("base", k)
			a, b := ed.Scalar32(c), ed.Scalar32(c)
			a[31] &= 0x1f
			b[31] &= 0x1f
			p, q := ed.Point(c), ed.Point(c)
			if c.Intn(4) == 0 {
				q = p
			}
			if c.Intn(6) == 0 {
				p = ref.EdBase
				if c.Bool() {
					b = a
				}
			}
			ap, bq := p.Mul(mon.FromLE(a)), q.Mul(mon.FromLE(b))
			var r ew.ProjectiveGroupElement
			ew.GeDoubleScalarMultVartime(&r, arr(a), ext(c, p), arr(b))
			r.ToBytes(&out)
			c.Eq("GeDoubleScalarMultVartime of "+mon.Hex(a)+mon.Hex(p.Enc())+mon.Hex(b), out[:], ap.Add(ref.EdMulBase(mon.FromLE(b))).Enc())
			c.Seen("double-scalar", a, b, p.Enc())
			ew.GePointAddVarTime(&r, arr(a), ext(c, p), arr(b), ext(c, q))
			r.ToBytes(&out)
			c.Eq("GePointAddVarTime of "+mon.Hex(a)+mon.Hex(p.Enc())+mon.Hex(b)+mon.Hex(q.Enc()), out[:], ap.Add(bq).Enc())
			c.Seen("two-point", a, b, p.Enc(), q.Enc())
			// doublings and encodings
			e := ext(c, p)
			e.ToBytes(&out)
			c.Eq("ExtendedGroupElement.ToBytes", out[:], p.Enc())
			c.Seen("encode", p.Enc())
			var cp ew.CompletedGroupElement
			e.Double(&cp)
			var e2 ew.ExtendedGroupElement
			cp.ToExtended(&e2)
			e2.ToBytes(&out)
			c.Eq("Double", out[:], p.Add(p).Enc())
			if mul(val(&e2.X), val(&e2.Y)).Cmp(mul(val(&e2.Z), val(&e2.T))) != 0 {
				c.Failf("Double of %x: XY != ZT", p.Enc())
			}
			var pr, pr2 ew.ProjectiveGroupElement
			e.ToProjective(&pr)
			pr.ToBytes(&out)
			c.Eq("ToProjective", out[:], p.Enc())
			pr.Double(&cp)
			cp.ToProjective(&pr2)
			pr2.ToBytes(&out)
			c.Eq("ProjectiveGroupElement.Double", out[:], p.Add(p).Enc())
			c.Seen("double", p.Enc())
			e2.Zero()
			e2.ToBytes(&out)
			c.Eq("Zero", out[:], ref.Ed{X: big.NewInt(0), Y: big.NewInt(1)}.Enc())
			c.Sample("scalar %x times the base point is %x", k, want.Enc())
		}},
		{Name: "decode", Quick: 30000, Thorough: 3000000, Classes: []string{"decoded", "refused", "non-canonical", "sign of zero"}, Fn: func(c *mon.Ctx) {
			var b []byte
			switch c.Intn(5) {
			case 0:
				es := ed.Encodings(ed.Point(c))
				b = es[c.Intn(len(es))]
			case 1:
				b = mon.LE(c.SmallX(P), 32)
			case 2:
				b = mon.LE(new(big.Int).Add(P, big.NewInt(int64(c.Intn(19)))), 32)
			case 3:
				b = ed.Bad(c)
			default:
				b = c.Bytes(32)
			}
			b[31] ^= byte(c.Intn(2)) << 7
			p, ok := ref.EdDecode(b)
			var e ew.ExtendedGroupElement
			got := e.FromBytes(arr(b))
			if got != ok {
				c.Failf("decoding %x: %v, independently %v", b, got, ok)
			}
			if !ok {
				c.Seen("refused", b)
				return
			}
			zi := new(big.Int).ModInverse(val(&e.Z), P)
			if mul(val(&e.X), zi).Cmp(p.X) != 0 || mul(val(&e.Y), zi).Cmp(p.Y) != 0 || mul(val(&e.T), zi).Cmp(mul(p.X, p.Y)) != 0 {
				c.Failf("decoding %x gives x %x y %x, want %x %x", b, mul(val(&e.X), zi), mul(val(&e.Y), zi), p.X, p.Y)
			}
			var out [32]byte
			e.ToBytes(&out)
			c.Eq("re-encoding", out[:], p.Enc())
			cl := "decoded"
			if string(p.Enc()) != string(b) {
				cl = "non-canonical"
			}
			if p.X.Sign() == 0 && b[31]&0x80 != 0 {
				c.Seen("sign of zero", b)
			}
			c.Seen(cl, b)
		}},
	})
}

func half(f ew.FieldElement) ew.FieldElement {
	for i := range f {
		f[i] /= 2
	}
	return f
}
