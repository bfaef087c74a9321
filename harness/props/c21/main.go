// C21: arithmetic of the Pasta fields, scalars and group.
package main

import (
	"encoding/hex"
	"math/big"
	"strings"

	"github.com/blocktree/go-owcrypt/pasta"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

var one = big.NewInt(1)

// limbs gives the words of an operand in Montgomery form, of chosen shape, below p.
func limbs(c *mon.Ctx, p *big.Int) [4]uint64 {
	pl := ref.RawLimbs(p)
	switch c.Intn(6) {
	case 0:
		return ref.Limbs(c.SmallX(p), p)
	case 1, 2:
		var l [4]uint64
		for i := range l {
			switch c.Intn(5) {
			case 0:
				l[i] = 0
			case 1:
				l[i] = ^uint64(0)
			case 2:
				l[i] = pl[i] + uint64(c.Intn(3)) - 1
			case 3:
				l[i] = 1 << uint(c.Intn(64))
			default:
				l[i] = c.U64()
			}
		}
		l[3] &= 1<<62 | (1<<62 - 1)
		v := ref.RawInt(l)
		return ref.RawLimbs(v.Mod(v, p))
	case 3:
		return ref.RawLimbs(c.SmallX(p))
	}
	return ref.RawLimbs(c.Big(p))
}

type field struct {
	name          string
	p             *big.Int
	mul, add, sub func(o *[4]uint64, a, b [4]uint64)
	sq, neg       func(o *[4]uint64, a [4]uint64)
	from, to      func(o *[4]uint64, a [4]uint64)
	nz            func(o *uint64, a [4]uint64)
	eq            func(a, b [4]uint64) bool
	cp            func(o *[4]uint64, a [4]uint64)
	hmul, hadd    func(o *[4]uint64, a, b [4]uint64)
	hsub          func(o *[4]uint64, a, b [4]uint64)
	hsq, hneg     func(o *[4]uint64, a [4]uint64)
	hex           func(o *[4]uint64, s string) bool
	sel           func(o *[4]uint64, bit uint, a, b [4]uint64)
	toB           func(o *[32]uint8, a [4]uint64)
	fromB         func(o *[4]uint64, b [32]uint8)
	one, pre      func(o *[4]uint64)
	msat          func(o *[5]uint64)
	step          func(d *uint64, f, g *[5]uint64, v, r *[4]uint64, d0 uint64, f0, g0 [5]uint64, v0, r0 [4]uint64)
}

var fields = []field{
	{"fp", ref.PP, pasta.FiatPastaFpMul, pasta.FiatPastaFpAdd, pasta.FiatPastaFpSub, pasta.FiatPastaFpSquare, pasta.FiatPastaFpOpp, pasta.FiatPastaFpFromMontgomery, pasta.FiatPastaFpToMontgomery, pasta.FiatPastaFpNonZero, pasta.FiatPastaFpEquals, pasta.FiatPastaFpCopy,
		func(o *[4]uint64, a, b [4]uint64) { pasta.FieldMul((*pasta.Field)(o), a, b) },
		func(o *[4]uint64, a, b [4]uint64) { pasta.FieldAdd((*pasta.Field)(o), a, b) },
		func(o *[4]uint64, a, b [4]uint64) { pasta.FieldSub((*pasta.Field)(o), a, b) },
		func(o *[4]uint64, a [4]uint64) { pasta.FieldSq((*pasta.Field)(o), a) },
		func(o *[4]uint64, a [4]uint64) { pasta.FieldNegate((*pasta.Field)(o), a) },
		func(o *[4]uint64, s string) bool { return pasta.FieldFromHex((*pasta.Field)(o), s) },
		func(o *[4]uint64, bit uint, a, b [4]uint64) { pasta.FiatPastaFpSelectZnz(o, pasta.FiatPastaFpUint1(bit), a, b) },
		pasta.FiatPastaFpToBytes, pasta.FiatPastaFpFromBytes, pasta.FiatPastaFpSetOne, pasta.FiatPastaFpDivStepPreComp, pasta.FiatPastaFpMSat, pasta.FiatPastaFpDivStep},
	{"fq", ref.PQ, pasta.FiatPastaFqMul, pasta.FiatPastaFqAdd, pasta.FiatPastaFqSub, pasta.FiatPastaFqSquare, pasta.FiatPastaFqOpp, pasta.FiatPastaFqFromMontgomery, pasta.FiatPastaFqToMontgomery, pasta.FiatPastaFqNonZero, pasta.FiatPastaFqEquals, pasta.FiatPastaFqCopy,
		func(o *[4]uint64, a, b [4]uint64) { pasta.ScalarMul((*pasta.Scalar)(o), a, b) },
		func(o *[4]uint64, a, b [4]uint64) { pasta.ScalarAdd((*pasta.Scalar)(o), a, b) },
		func(o *[4]uint64, a, b [4]uint64) { pasta.ScalarSub((*pasta.Scalar)(o), a, b) },
		func(o *[4]uint64, a [4]uint64) { pasta.ScalarSq((*pasta.Scalar)(o), a) },
		func(o *[4]uint64, a [4]uint64) { pasta.ScalarNegate((*pasta.Scalar)(o), a) },
		func(o *[4]uint64, s string) bool { return pasta.ScalarFromHex((*pasta.Scalar)(o), s) },
		func(o *[4]uint64, bit uint, a, b [4]uint64) { pasta.FiatPastaFqSelectZnz(o, pasta.FiatPastaFqUint1(bit), a, b) },
		pasta.FiatPastaFqToBytes, pasta.FiatPastaFqFromBytes, pasta.FiatPastaFqSetOne, pasta.FiatPastaFqDivStepPreComp, pasta.FiatPastaFqMSat, pasta.FiatPastaFqDivStep},
}

func (f field) is(c *mon.Ctx, op string, got [4]uint64, want *big.Int, args ...interface{}) {
	want = new(big.Int).Mod(want, f.p)
	if ref.RawInt(got).Cmp(f.p) >= 0 {
		c.Failf("%s of %x in %s is not reduced: %x", op, args, f.name, got)
	}
	if ref.FromLimbs(got, f.p).Cmp(want) != 0 {
		c.Failf("%s of %x in %s: got %x, want %x", op, args, f.name, got, ref.Limbs(want, f.p))
	}
	c.Seen(f.name+"/"+op, args...)
}

var two320 = new(big.Int).Lsh(one, 320)

// twos is the value of five words in two's complement.
func twos(l [5]uint64) *big.Int {
	v := new(big.Int)
	for i := 4; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(l[i]))
	}
	if l[4]>>63 == 1 {
		v.Sub(v, two320)
	}
	return v
}

func words5(v *big.Int) (l [5]uint64) {
	v = new(big.Int).Mod(v, two320)
	for i := range l {
		l[i] = new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64()
		v.Rsh(v, 64)
	}
	return
}

// steps is the number of divsteps that an inversion takes.
const steps = (49*255 + 57) / 17

func (f field) raw(c *mon.Ctx) {
	a, b := limbs(c, f.p), limbs(c, f.p)
	bit := uint(c.Intn(2))
	var o [4]uint64
	f.sel(&o, bit, a, b)
	if want := [][4]uint64{a, b}[bit]; o != want {
		c.Failf("%s: selecting %d of %x and %x gives %x", f.name, bit, a, b, o)
	}
	var by [32]byte
	for i := range by {
		by[i] = byte(c.U64())
	}
	f.toB(&by, a)
	c.Eq(f.name+" to bytes", by[:], mon.LE(ref.RawInt(a), 32))
	o = b
	f.fromB(&o, by)
	if o != a {
		c.Failf("%s: from bytes of %x gives %x", f.name, by, o)
	}
	o = b
	f.one(&o)
	f.is(c, "one", o, one)
	var m [5]uint64
	m[4] = c.U64()
	f.msat(&m)
	if twos(m).Cmp(f.p) != 0 {
		c.Failf("%s: the modulus is %x", f.name, m)
	}
	c.Seen(f.name+"/select", a, b, bit)
}

func (f field) divstep(c *mon.Ctx) {
	// one step, of any operands the algorithm may meet
	d := uint64(int64(c.Intn(1500) - 750))
	half := new(big.Int).Lsh(one, 256)
	signed := func() *big.Int {
		v := c.Big(half)
		if c.Intn(3) == 0 {
			v = ref.RawInt(limbs(c, f.p))
		}
		if c.Bool() {
			v.Neg(v)
		}
		return v
	}
	F, G := signed(), signed()
	F.SetBit(new(big.Int).Abs(F), 0, 1)
	if c.Bool() {
		F.Neg(F)
	}
	v, r := limbs(c, f.p), limbs(c, f.p)
	var d1 uint64
	var f1, g1 [5]uint64
	var v1, r1 [4]uint64
	f.step(&d1, &f1, &g1, &v1, &r1, d, words5(F), words5(G), v, r)
	vi, ri := ref.RawInt(v), ref.RawInt(r)
	wd, wf, wg, wv, wr := new(big.Int), new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	odd := G.Bit(0) == 1
	if int64(d) > 0 && odd {
		wd.Sub(one, big.NewInt(int64(d)))
		wf.Set(G)
		wg.Sub(G, F).Rsh(wg, 1)
		wv.Lsh(ri, 1)
		wr.Sub(ri, vi)
		c.Seen(f.name+"/swapping step", F, G)
	} else {
		wd.Add(one, big.NewInt(int64(d)))
		wf.Set(F)
		wg.Set(G)
		wr.Set(ri)
		if odd {
			wg.Add(G, F)
			wr.Add(ri, vi)
		}
		wg.Rsh(wg, 1)
		wv.Lsh(vi, 1)
		c.Seen(f.name+"/plain step", F, G)
	}
	wv.Mod(wv, f.p)
	wr.Mod(wr, f.p)
	if int64(d1) != wd.Int64() || twos(f1).Cmp(wf) != 0 || twos(g1).Cmp(wg) != 0 || ref.RawInt(v1).Cmp(wv) != 0 || ref.RawInt(r1).Cmp(wr) != 0 {
		c.Failf("%s: divstep of %d %x %x %x %x gives %d %x %x %x %x", f.name, int64(d), F, G, v, r, int64(d1), f1, g1, v1, r1)
	}
	if c.Intn(8) > 0 {
		return
	}
	// an inversion by divsteps
	a := ref.RawLimbs(c.Scalar(f.p))
	var am, rm, pre, inv [4]uint64
	f.to(&am, a)
	f.one(&rm)
	f.pre(&pre)
	d, v = 1, [4]uint64{}
	fw, gw := words5(f.p), words5(ref.RawInt(a))
	for i := 0; i < steps; i++ {
		f.step(&d1, &f1, &g1, &v1, &r1, d, fw, gw, v, rm)
		d, fw, gw, v, rm = d1, f1, g1, v1, r1
	}
	if fw[4]>>63 == 1 {
		f.neg(&v, v)
	}
	f.mul(&inv, v, pre)
	f.is(c, "inverse by divsteps", inv, new(big.Int).ModInverse(ref.RawInt(a), f.p), a)
}

// Jacobian form with a random Z.
func group(c *mon.Ctx, p ref.Pt) (g pasta.Group) {
	z := big.NewInt(1)
	if c.Intn(4) > 0 {
		z = c.Scalar(ref.PP)
	}
	if p.Inf() {
		if c.Bool() {
			return pasta.GroupZero
		}
		t := c.Scalar(ref.PP) // another representative (t^2, t^3, 0)
		t2 := new(big.Int).Mul(t, t)
		g.X, g.Y = ref.Limbs(t2, ref.PP), ref.Limbs(new(big.Int).Mul(t2, t), ref.PP)
		return
	}
	z2 := new(big.Int).Mul(z, z)
	z3 := new(big.Int).Mul(z2, z)
	g.X = ref.Limbs(z2.Mul(z2, p.X), ref.PP)
	g.Y = ref.Limbs(z3.Mul(z3, p.Y), ref.PP)
	g.Z = ref.Limbs(z, ref.PP)
	return
}

func affine(g pasta.Group) (ref.Pt, bool) {
	for _, v := range [][4]uint64{g.X, g.Y, g.Z} {
		if ref.RawInt(v).Cmp(ref.PP) >= 0 {
			return ref.Pt{}, false
		}
	}
	z := ref.FromLimbs(g.Z, ref.PP)
	if z.Sign() == 0 {
		return ref.Pt{}, true
	}
	z.ModInverse(z, ref.PP)
	z2 := new(big.Int).Mul(z, z)
	x := new(big.Int).Mul(ref.FromLimbs(g.X, ref.PP), z2)
	y := new(big.Int).Mul(ref.FromLimbs(g.Y, ref.PP), z2.Mul(z2, z))
	return ref.Pt{X: x.Mod(x, ref.PP), Y: y.Mod(y, ref.PP)}, true
}

func show(p ref.Pt) []byte {
	if p.Inf() {
		return []byte("infinity")
	}
	return p.Enc()
}

func same(c *mon.Ctx, op string, g pasta.Group, want ref.Pt, in ...pasta.Group) {
	got, ok := affine(g)
	if !ok || !got.Eq(want) {
		c.Failf("%s of %x: got %x (reduced: %v), want %x", op, in, show(got), ok, show(want))
	}
	c.Seen("group/"+op, in[0], g)
	if pasta.GroupIsOnCurve(g) != 1 {
		c.Failf("%s of %x: %x is said not to be on the curve", op, in, g)
	}
}

func aff(p ref.Pt) (a pasta.Affine) {
	if !p.Inf() {
		a.X, a.Y = ref.Limbs(p.X, ref.PP), ref.Limbs(p.Y, ref.PP)
	}
	return
}

func affIs(c *mon.Ctx, op string, a pasta.Affine, want ref.Pt, in ...interface{}) {
	if a != aff(want) {
		c.Failf("%s of %x: got %x, want %x", op, in, a, aff(want))
	}
	c.Seen("affine/"+op, in...)
}

func point(c *mon.Ctx) ref.Pt {
	if c.Intn(8) == 0 {
		return ref.Pt{}
	}
	return sw.Pasta.Point(c)
}

var root = func() *big.Int { // of order 2^32
	e := new(big.Int).Sub(ref.PP, one)
	e.Rsh(e, 32)
	for g := int64(2); ; g++ {
		r := new(big.Int).Exp(big.NewInt(g), e, ref.PP)
		if new(big.Int).Exp(r, new(big.Int).Lsh(one, 31), ref.PP).Cmp(one) != 0 {
			return r
		}
	}
}()

func main() {
	mon.Main("C21", []mon.Group{
		{Name: "field", Quick: 40000, Thorough: 4000000, Classes: []string{"fp/mul", "fp/add", "fp/sub", "fp/square", "fp/negate", "fq/mul", "fq/add", "fq/sub", "fq/square", "fq/negate", "fp/from Montgomery", "fp/to Montgomery", "fp/compare"}, Fn: func(c *mon.Ctx) {
			for _, f := range fields {
				a, b := limbs(c, f.p), limbs(c, f.p)
				if c.Intn(8) == 0 {
					b = ref.RawLimbs(new(big.Int).Mod(new(big.Int).Sub(f.p, ref.RawInt(a)), f.p))
				}
				va, vb := ref.FromLimbs(a, f.p), ref.FromLimbs(b, f.p)
				type bin struct {
					op   string
					fn   [2]func(*[4]uint64, [4]uint64, [4]uint64)
					want *big.Int
				}
				for _, x := range []bin{
					{"mul", [2]func(*[4]uint64, [4]uint64, [4]uint64){f.mul, f.hmul}, new(big.Int).Mul(va, vb)},
					{"add", [2]func(*[4]uint64, [4]uint64, [4]uint64){f.add, f.hadd}, new(big.Int).Add(va, vb)},
					{"sub", [2]func(*[4]uint64, [4]uint64, [4]uint64){f.sub, f.hsub}, new(big.Int).Sub(va, vb)},
				} {
					for _, fn := range x.fn {
						o := [4]uint64{c.U64(), 1, 2, 3}
						fn(&o, a, b)
						f.is(c, x.op, o, x.want, a, b)
					}
				}
				for _, fn := range []func(*[4]uint64, [4]uint64){f.sq, f.hsq} {
					o := [4]uint64{9, 9, 9, 9}
					fn(&o, a)
					f.is(c, "square", o, new(big.Int).Mul(va, va), a)
				}
				for _, fn := range []func(*[4]uint64, [4]uint64){f.neg, f.hneg} {
					o := [4]uint64{9, 9, 9, 9}
					fn(&o, a)
					f.is(c, "negate", o, new(big.Int).Neg(va), a)
				}
				// result in an operand
				o := a
				f.mul(&o, o, b)
				f.is(c, "mul", o, new(big.Int).Mul(va, vb), a, b)
				o = a
				f.sq(&o, o)
				f.is(c, "square", o, new(big.Int).Mul(va, va), a)
				f.from(&o, a)
				if ref.RawInt(o).Cmp(va) != 0 {
					c.Failf("%x from Montgomery form in %s: %x, want %x", a, f.name, o, va)
				}
				c.Seen(f.name+"/from Montgomery", a)
				r := a
				if c.Intn(4) == 0 { // words that are not reduced convert to the reduced form
					for i := range r {
						r[i] = c.U64() | uint64(-int64(c.Intn(2)))
					}
				}
				f.to(&o, r)
				f.is(c, "to Montgomery", o, ref.RawInt(r), r)
				var nz uint64
				f.nz(&nz, a)
				if (nz != 0) != (va.Sign() != 0) || f.eq(a, b) != (va.Cmp(vb) == 0) || !f.eq(a, a) {
					c.Failf("comparison in %s of %x and %x", f.name, a, b)
				}
				d := a
				d[c.Intn(4)] ^= 1 << uint(c.Intn(62))
				if ref.RawInt(d).Cmp(f.p) < 0 && f.eq(a, d) {
					c.Failf("%x equals %x in %s", a, d, f.name)
				}
				c.Seen(f.name+"/compare", a, b)
				f.cp(&o, a)
				if o != a {
					c.Failf("copy of %x in %s", a, f.name)
				}
				// hexadecimal form, little endian
				le := mon.LE(va, 32)
				if va.BitLen() <= 254 { // as in the reference implementation
					if !f.hex(&o, hex.EncodeToString(le)) {
						c.Failf("%x refused by %s", le, f.name)
					}
					f.is(c, "from hexadecimal", o, va, a)
				}
				if s := hex.EncodeToString(le); f.hex(&o, s[:62]) || f.hex(&o, s+"00") || f.hex(&o, strings.Replace(s, s[:1], "g", 1)) {
					c.Failf("malformed variants of %s accepted by %s", s, f.name)
				}
			}
		}},
		{Name: "powers", Quick: 3000, Thorough: 200000, Classes: []string{"fp/inverse", "fp/power", "fp/square root", "fp/no square root", "fp/small power"}, Fn: func(c *mon.Ctx) {
			f := fields[0]
			a := limbs(c, f.p)
			va := ref.FromLimbs(a, f.p)
			var o [4]uint64
			inv := new(big.Int).Exp(va, new(big.Int).Sub(f.p, big.NewInt(2)), f.p)
			pasta.FiatPastaFpInv(&o, a)
			f.is(c, "inverse", o, inv, a)
			var fo pasta.Field
			pasta.FieldInv(&fo, a)
			f.is(c, "inverse", fo, inv, a)
			n := 1 + c.Intn(256)
			bits := make([]bool, n)
			e := new(big.Int)
			for i := range bits {
				bits[i] = c.Bool()
				e.Lsh(e, 1)
				if bits[i] {
					e.Add(e, one)
				}
			}
			pasta.FiatPastaFpPow(&o, a, bits, n)
			f.is(c, "power", o, new(big.Int).Exp(va, e, f.p), a, e)
			b := byte(c.I)
			pasta.FieldPow(&fo, a, b)
			f.is(c, "small power", fo, new(big.Int).Exp(va, big.NewInt(int64(b)), f.p), a, int(b))
			// square roots: of anything, of squares, of roots of unity of every order
			vals := []*big.Int{va, new(big.Int).Mod(new(big.Int).Mul(va, va), f.p)}
			u := new(big.Int).Exp(root, new(big.Int).SetUint64(c.U64()<<uint(c.Intn(33))&0xffffffff), f.p)
			vals = append(vals, u, new(big.Int).Mod(new(big.Int).Mul(u, vals[1]), f.p))
			for _, v := range vals {
				want := big.Jacobi(v, f.p) >= 0
				in := ref.Limbs(v, f.p)
				if got := pasta.FiatPastaFpLegendRe(in); got != big.Jacobi(v, f.p) {
					c.Failf("quadratic character of %x: %d", v, got)
				}
				ok := pasta.FiatPastaFpSqrt(&o, in)
				if ok != want {
					c.Failf("square root of %x: %v, want %v", v, ok, want)
				}
				if !ok {
					c.Seen("fp/no square root", v)
					continue
				}
				r := ref.FromLimbs(o, f.p)
				f.is(c, "square root", o, r, v)
				if r.Mul(r, r).Mod(r, f.p).Cmp(v) != 0 {
					c.Failf("square root of %x: %x", v, o)
				}
			}
			if pasta.FieldIsOdd(a) != (va.Bit(0) == 1) {
				c.Failf("parity of %x", a)
			}
			c.Sample("fp: inverse and roots of %x", va)
		}},
		{Name: "raw", Quick: 3000, Thorough: 200000, Classes: []string{"fp/select", "fq/select", "fp/one", "fq/one", "fp/swapping step", "fq/swapping step", "fp/plain step", "fq/plain step", "fp/inverse by divsteps", "fq/inverse by divsteps"}, Fn: func(c *mon.Ctx) {
			for _, f := range fields {
				f.raw(c)
				f.divstep(c)
			}
			w := [4]uint64{c.U64(), c.U64(), c.U64(), c.U64()}
			if c.Bool() {
				w = limbs(c, ref.PQ)
			}
			var a, b pasta.Scalar
			pasta.ScalarFromWords(&a, w)
			w[3] &= 1<<62 - 1
			fields[1].is(c, "from words", a, ref.RawInt(w), w)
			pasta.ScalarCopy(&b, a)
			if b != a || !pasta.ScalarEq(a, b) {
				c.Failf("a copy of the scalar %x is %x", a, b)
			}
		}},
		{Name: "constants", Quick: 16, Thorough: 64, Classes: []string{"fp/constant", "group constant"}, Fn: func(c *mon.Ctx) {
			fp := fields[0]
			for _, k := range []struct {
				n string
				v pasta.Field
				w int64
			}{{"one", pasta.FieldOne, 1}, {"three", pasta.FieldThree, 3}, {"four", pasta.FieldFour, 4}, {"eight", pasta.FieldEight, 8}, {"zero", pasta.FieldZero, 0}, {"the curve's b", pasta.GroupCoeffB, 5}} {
				fp.is(c, "constant", k.v, big.NewInt(k.w), k.n)
			}
			fields[1].is(c, "constant", pasta.ScalarZero, new(big.Int), "zero")
			affIs(c, "the generator", pasta.AffineOne, sw.Pasta.G)
			var g, h pasta.Group
			pasta.AffineToGroup(&g, pasta.AffineOne)
			pasta.GroupAdd(&h, g, pasta.GroupZero)
			var a pasta.Affine
			pasta.AffineFromGroup(&a, h)
			affIs(c, "the generator plus the identity", a, sw.Pasta.G)
			c.Seen("group constant", a.X, a.Y)
		}},
		{Name: "bytes", Quick: 3000, Thorough: 200000, Classes: []string{"bytes"}, Fn: func(c *mon.Ctx) {
			for _, f := range fields {
				b := c.Bytes(32)
				if c.Bool() {
					b = mon.B32(c.SmallX(f.p), 32)
				}
				v := new(big.Int).SetBytes(b)
				red := new(big.Int).Mod(v, f.p)
				var got [4]uint64
				var back []byte
				if f.name == "fp" {
					got = pasta.BigEndianBytesToFpMontgomeryArray(b)
					back = pasta.FpMontgomeryArrayToBigEndianBytes(got)
				} else {
					got = pasta.BigEndianBytesToFqMontgomeryArray(b)
					back = pasta.FqMontgomeryArrayToBigEndianBytes(got)
				}
				f.is(c, "from bytes", got, v, b)
				c.Eq("to bytes", back, mon.B32(red, 32))
				c.Seen("bytes", b)
				var le [32]byte
				copy(le[:], b)
				l := pasta.BytesArrayToU64Array(le)
				if ref.RawInt(l).Cmp(mon.FromLE(b)) != 0 || pasta.U64ArrayToBytesArray(l) != le {
					c.Failf("words of %x: %x", b, l)
				}
			}
			p := point(c)
			var a pasta.Affine
			if p.Inf() {
				p = sw.Pasta.G
			}
			for _, e := range [][]byte{p.Enc(), p.Enc33(), append([]byte{4}, p.Enc()...)} {
				if err := a.FromBigEndianBytes(e); err != nil {
					c.Failf("%x refused: %v", e, err)
				}
				affIs(c, "from bytes", a, p, e)
			}
			c.Eq("to bytes", a.ToBigEndianBytes(), p.Enc())
			c.Eq("to Montgomery bytes", a.ToBigEndianMontgomeryBytes(), append(mon.B32(ref.RawInt(a.X), 32), mon.B32(ref.RawInt(a.Y), 32)...))
		}},
		{Name: "group", Quick: 6000, Thorough: 400000, Classes: []string{"group/add", "group/double", "group/negate", "group/add equal", "group/add opposite", "group/add identity", "affine/add", "affine/negate"}, Fn: func(c *mon.Ctx) {
			p, q := point(c), point(c)
			P := ref.Pallas
			add := func(op string, p, q ref.Pt) {
				gp, gq := group(c, p), group(c, q)
				o := pasta.Group{X: pasta.Field{5}, Y: pasta.Field{6}, Z: pasta.Field{7}}
				pasta.GroupAdd(&o, gp, gq)
				same(c, op, o, P.Add(p, q), gp, gq)
				pasta.GroupAdd(&gp, gp, gq)
				same(c, op, gp, P.Add(p, q), gp, gq)
				if !p.Inf() && !q.Inf() || true {
					var a pasta.Affine
					pasta.AffineAdd(&a, aff(p), aff(q))
					affIs(c, "add", a, P.Add(p, q), show(p), show(q))
				}
			}
			add("add", p, q)
			add("add equal", p, p)
			add("add opposite", p, P.Neg(p))
			add("add identity", p, ref.Pt{})
			add("add identity", ref.Pt{}, q)
			g := group(c, p)
			var o pasta.Group
			pasta.GroupDbl(&o, g)
			same(c, "double", o, P.Add(p, p), g)
			pasta.GroupNegate(&o, g)
			same(c, "negate", o, P.Neg(p), g)
			var a pasta.Affine
			pasta.AffineNegate(&a, aff(p))
			affIs(c, "negate", a, P.Neg(p), show(p))
			pasta.AffineFromGroup(&a, g)
			affIs(c, "from group", a, p, show(p), g)
			if pasta.AffineEq(aff(p), aff(q)) != p.Eq(q) || !pasta.AffineEq(a, aff(p)) || !pasta.AffineIsOnCurve(a) {
				c.Failf("comparison of %x and %x", show(p), show(q))
			}
			if !p.Inf() {
				off := aff(p)
				off.Y = ref.Limbs(new(big.Int).Add(p.Y, one), ref.PP)
				if pasta.AffineIsOnCurve(off) {
					c.Failf("%x is said to be on the curve", off)
				}
				g.Y = ref.Limbs(new(big.Int).Add(ref.FromLimbs(g.Y, ref.PP), one), ref.PP)
				if w, _ := affine(g); pasta.GroupIsOnCurve(g) == 1 != P.On(w) {
					c.Failf("%x is said to be on the curve", g)
				}
			}
			c.Sample("group: %x and %x", show(p), show(q))
		}},
		{Name: "scalar", Quick: 800, Thorough: 60000, Classes: []string{"group/multiply", "affine/multiply", "affine/base"}, Fn: func(c *mon.Ctx) {
			p := point(c)
			k := c.Scalar0(ref.PQ)
			if c.I < 32 {
				k = big.NewInt(int64(c.I))
			} else if c.I < 64 {
				k = new(big.Int).Sub(ref.PQ, big.NewInt(int64(c.I-31)))
			}
			g := group(c, p)
			kl := pasta.Scalar(ref.Limbs(k, ref.PQ))
			want := ref.Pallas.Mul(p, k)
			var o pasta.Group
			pasta.GroupScalarMul(&o, kl, g)
			same(c, "multiply", o, want, g)
			var a pasta.Affine
			pasta.AffineScalarMul(&a, kl, aff(p))
			affIs(c, "multiply", a, want, k, show(p))
			pasta.GeneratePubkey(&a, kl)
			affIs(c, "base", a, ref.Pallas.MulG(k), k)
		}},
	})
}
