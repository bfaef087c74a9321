// C18: the pairing and its target group.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	root "github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/drand/kyber"

	"owverif/internal/bl"
	"owverif/internal/mon"
)

var (
	base = bl.Pair(bl.G1.G, bl.G2.G)
	one  = bl.One12()
)

// load1 and load2 give points in affine or other coordinates.
func load1(c *mon.Ctx, p bl.P1) *bls.PointG1 {
	g := bls.NewG1()
	q, err := g.FromBytes(bl.G1.Raw(p))
	if err != nil {
		c.Failf("%x: %v", bl.G1.Raw(p), err)
	}
	if c.Bool() {
		o, _ := g.FromBytes(bl.G1.Raw(bl.G1.MulG(c.Scalar(bl.R))))
		g.Add(q, q, o)
		g.Sub(q, q, o)
	}
	return q
}

func load2(c *mon.Ctx, p bl.P2) *bls.PointG2 {
	g := bls.NewG2(nil)
	q, err := g.FromBytes(bl.G2.Raw(p))
	if err != nil {
		c.Failf("%x: %v", bl.G2.Raw(p), err)
	}
	if c.Bool() {
		o, _ := g.FromBytes(bl.G2.Raw(bl.G2.MulG(c.Scalar(bl.R))))
		g.Add(q, q, o)
		g.Sub(q, q, o)
	}
	return q
}

func exponent(c *mon.Ctx) *big.Int {
	switch c.Intn(8) {
	case 0:
		return new(big.Int)
	case 1:
		return big.NewInt(int64(1 + c.Intn(20)))
	case 2:
		return new(big.Int).Sub(bl.R, big.NewInt(int64(1+c.Intn(20))))
	}
	return c.Big(bl.R)
}

func gt(b *bls.E) []byte { return bls.NewGT().ToBytes(b) }

func randomE(c *mon.Ctx) bl.Fp12 {
	var e bl.Fp12
	switch c.Intn(10) {
	case 0:
		return e
	case 1:
		return one
	}
	var t [2][3]bl.Fp2
	for i := range t {
		for j := range t[i] {
			if c.Intn(5) > 0 {
				t[i][j] = bl.Fp2{A: bl.FpInt(c.SmallX(bl.P)), B: bl.FpInt(c.Big(bl.P))}
				if c.Intn(5) == 0 {
					t[i][j].A = bl.FpInt(c.Big(bl.P))
				}
				if c.Intn(5) == 0 {
					t[i][j].B = bl.Fp{}
				}
			}
		}
	}
	return bl.FromTower(t)
}

// small are the small primes dividing the cofactor of the target group.
var (
	units    = new(big.Int).Sub(new(big.Int).Exp(bl.P, big.NewInt(12), nil), big.NewInt(1))
	cofactor = new(big.Int).Div(units, bl.R)
	small    = func() (s []*big.Int) {
		for l := int64(2); l < 20000; l++ {
			v := big.NewInt(l)
			if v.ProbablyPrime(20) && new(big.Int).Mod(cofactor, v).Sign() == 0 {
				s = append(s, v)
			}
		}
		return
	}()
)

// stray gives an element of a chosen order, not one, times one of the target group: of a small order, of the cyclotomic
// subgroup, or of a subfield.
func stray(c *mon.Ctx) (e bl.Fp12, what string) {
	pow := func(i int64) *big.Int { return new(big.Int).Exp(bl.P, big.NewInt(i), nil) }
	for {
		var t [2][3]bl.Fp2
		for i := range t {
			for j := range t[i] {
				t[i][j] = bl.Fp2{A: bl.FpInt(c.Big(bl.P)), B: bl.FpInt(c.Big(bl.P))}
			}
		}
		var x *big.Int
		switch c.Intn(4) {
		case 0: // killed by the order of the group of units of a subfield
			d := []int64{1, 2, 3, 4, 6}[c.Intn(5)]
			x = new(big.Int).Div(units, new(big.Int).Sub(pow(d), big.NewInt(1)))
			what = "subfield"
		case 1: // killed by p^4 - p^2 + 1, and by that over the order
			v := pow(4)
			v.Sub(v, pow(2)).Add(v, big.NewInt(1))
			if c.Bool() {
				v.Div(v, bl.R)
			}
			x = new(big.Int).Div(units, v)
			what = "cyclotomic"
		default:
			x = new(big.Int).Div(units, small[c.Intn(len(small))])
			what = "small order"
		}
		e = bl.FromTower(t).Exp(x)
		if c.Bool() {
			e = e.Mul(base.Exp(exponent(c)))
		}
		if e.Exp(bl.R) != one {
			return
		}
	}
}

// make builds any element of the field from two of the target group: a sum of powers of the base,
// which spans the field.
func element(c *mon.Ctx) (*bls.E, bl.Fp12) {
	G := bls.NewGT()
	k := exponent(c)
	e := base.Exp(k)
	x, err := G.FromBytes(e.Bytes())
	if err != nil {
		c.Failf("FromBytes of the base to the %x: %v", k, err)
	}
	if c.Intn(3) == 0 {
		return x, e
	}
	for i := c.Intn(4); i >= 0; i-- {
		k = exponent(c)
		y := base.Exp(k)
		z, err := G.FromBytes(y.Bytes())
		if err != nil {
			c.Failf("FromBytes of the base to the %x: %v", k, err)
		}
		if c.Bool() {
			G.Add(x, x, z)
			e = e.Add(y)
		} else {
			G.Sub(x, x, z)
			e = e.Sub(y)
		}
	}
	return x, e
}

// unit is one in the internal form of the library; internal gives the internal form of a number.
var unit = raw(new(bls.E).One()[0][0][0])

func raw(w [6]uint64) *big.Int {
	v := new(big.Int)
	for i := 5; i >= 0; i-- {
		v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w[i]))
	}
	return v
}

func internal(a bl.Fp) (w [6]uint64) {
	v := a.Int()
	v.Mul(v, unit).Mod(v, bl.P)
	b := mon.B32(v, 48)
	for i := range w {
		w[i] = new(big.Int).SetBytes(b[40-8*i : 48-8*i]).Uint64()
	}
	return
}

// set writes an element with chosen coefficients.
func set(t [2][3]bl.Fp2) *bls.E {
	x := new(bls.E)
	for i := range t {
		for j := range t[i] {
			x[i][j][0] = internal(t[i][j].A)
			x[i][j][1] = internal(t[i][j].B)
		}
	}
	return x
}

// coefficients are of special shapes, many of them zero or negatives of others.
func coefficients(c *mon.Ctx) (t [2][3]bl.Fp2) {
	mask := c.U64()
	if c.Bool() {
		mask |= c.U64()
	} else if c.Bool() {
		mask &= c.U64() & c.U64()
	}
	if c.Intn(6) == 0 {
		mask = 1 << uint(c.Intn(12)) // one coefficient
	}
	last := bl.Special(c)
	for i := 0; i < 12; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		switch c.Intn(8) {
		case 0:
			last = last.Neg()
		case 1:
			last = last.One()
		case 2, 3:
		default:
			last = bl.Special(c)
		}
		if i&1 == 0 {
			t[i/6][i/2%3].A = last
		} else {
			t[i/6][i/2%3].B = last
		}
	}
	return
}

func main() {
	mon.Main("C18", []mon.Group{
		{Name: "words", Quick: 4000, Thorough: 1000000, Classes: []string{"words/product", "words/inverse", "words/equal operands", "words/opposite operands", "words/subfield"}, Fn: func(c *mon.Ctx) {
			G := bls.NewGT()
			t, u := coefficients(c), coefficients(c)
			switch c.Intn(6) {
			case 0:
				u = t
				c.Seen("words/equal operands", t)
			case 1:
				for i := range t {
					for j := range t[i] {
						u[i][j] = t[i][j].Neg()
					}
				}
				c.Seen("words/opposite operands", t)
			case 2:
				t[0][1], t[0][2], t[1] = bl.Fp2{}, bl.Fp2{}, u[1]
				u[1] = [3]bl.Fp2{}
				c.Seen("words/subfield", t, u)
			case 3:
				t[0], u[0] = [3]bl.Fp2{}, [3]bl.Fp2{}
			}
			x, y := set(t), set(u)
			a, b := bl.FromTower(t), bl.FromTower(u)
			ab, bb := a.Bytes(), b.Bytes()
			c.Eq("element", gt(x), ab)
			c.Eq("element", gt(y), bb)
			z := G.New()
			res := func(what string, want bl.Fp12) {
				c.Eq(what+" of "+mon.Hex(ab)+" and "+mon.Hex(bb), gt(z), want.Bytes())
				if G.IsOne(z) != (want == one) || G.Equal(z, x) != (want == a) || z.Equal(y) != (want == b) {
					c.Failf("%s of %x and %x: comparisons of the result", what, ab, bb)
				}
			}
			G.Mul(z, x, y)
			res("Mul", a.Mul(b))
			c.Seen("words/product", t, u)
			G.Add(z, x, y)
			res("Add", a.Add(b))
			G.Sub(z, x, y)
			res("Sub", a.Sub(b))
			G.Mul(z, x, x)
			res("Mul of one object", a.Mul(a))
			if a != (bl.Fp12{}) {
				G.Inverse(z, x)
				if r, ok := bl.FromBytes(gt(z)); !ok || a.Mul(r) != one {
					c.Failf("inverse of %x is %x", ab, gt(z))
				}
				c.Seen("words/inverse", t)
				w := G.New()
				G.Mul(w, z, x)
				if !G.IsOne(w) || !w.IsOne() {
					c.Failf("%x times its inverse is not one", ab)
				}
			}
			c.Eq("first operand", gt(x), ab)
			c.Eq("second operand", gt(y), bb)
		}},
		{Name: "limbs", Quick: 300, Thorough: 400000, Classes: []string{"limbs/known carries", "limbs/special", "limbs/square", "limbs/inverse"}, Fn: func(c *mon.Ctx) {
			G := bls.NewGT()
			for n := 0; n < 64; n++ {
				var a, b, d, e bl.Fp
				a, b = bl.WordPair(c)
				class := "limbs/known carries"
				if n&1 == 1 {
					a, b = bl.Special(c), bl.Special(c)
					class = "limbs/special"
				}
				switch c.Intn(5) {
				case 0:
					d, e = bl.WordPair(c)
				case 1:
					d, e = a, b
				case 2:
					d, e = b.Neg(), a
				}
				var t, u [2][3]bl.Fp2
				t[0][0], u[0][0] = bl.Fp2{A: a, B: d}, bl.Fp2{A: b, B: e}
				x, y, z := set(t), set(u), new(bls.E)
				res := func(what string, want bl.Fp2) {
					var v [2][3]bl.Fp2
					v[0][0] = want
					if *z != *set(v) {
						c.Eq(fmt.Sprintf("%s with internal words %x %x and %x %x", what, a, d, b, e), gt(z), gt(set(v)))
						c.Failf("%s with internal words %x %x and %x %x: unreduced result", what, a, d, b, e)
					}
				}
				G.Mul(z, x, y)
				res("Mul", t[0][0].Mul(u[0][0]))
				G.Mul(z, x, x)
				res("Mul of one object", t[0][0].Mul(t[0][0]))
				G.Add(z, x, y)
				res("Add", t[0][0].Add(u[0][0]))
				G.Sub(z, x, y)
				res("Sub", t[0][0].Sub(u[0][0]))
				if n < 2 && t[0][0] != (bl.Fp2{}) {
					G.Inverse(z, x)
					res("Inverse", t[0][0].Inv())
					c.Seen("limbs/inverse", a, d)
				}
				c.Seen(class, a, b, d, e)
				c.Seen("limbs/square", a, d)
			}
		}},
		{Name: "reference", Quick: 100, Thorough: 8000, Classes: []string{"pairing"}, Fn: func(c *mon.Ctx) {
			a, b := exponent(c), exponent(c)
			p, q := bl.G1.MulG(a), bl.G2.MulG(b)
			if c.I == 0 {
				p, q = bl.G1.G, bl.G2.G
			}
			l1, l2 := load1(c, p), load2(c, q)
			k1, k2 := *l1, *l2
			got := gt(bls.NewEngine().AddPair(l1, l2).Result())
			if *l1 != k1 || *l2 != k2 {
				c.Failf("the pairing changed a point")
			}
			c.Eq(fmt.Sprintf("pairing of %x and %x", bl.G1.Raw(p), bl.G2.Raw(q)), got, bl.Pair(p, q).Bytes())
			c.Seen("pairing", a, b)
		}},
		{Name: "bilinear", Quick: 480, Thorough: 60000, Classes: []string{"bilinear", "identity operand"}, Fn: func(c *mon.Ctx) {
			a, b := exponent(c), exponent(c)
			p, q := bl.G1.MulG(a), bl.G2.MulG(b)
			ab := new(big.Int).Mul(a, b)
			ab.Mod(ab, bl.R)
			E := bls.NewEngine()
			r := E.AddPair(load1(c, p), load2(c, q)).Result()
			c.Eq(fmt.Sprintf("pairing of %x and %x times the generators", a, b), gt(r), base.Exp(ab).Bytes())
			G := E.GT()
			if G.IsOne(r) != (ab.Sign() == 0) || r.IsOne() != (ab.Sign() == 0) || !G.IsValid(r) {
				c.Failf("pairing of %x and %x times the generators: IsOne %v", a, b, G.IsOne(r))
			}
			// e(aP, Q) = e(P, aQ) = e(P, Q)^a
			s := exponent(c)
			g1, g2 := bls.NewG1(), bls.NewG2(nil)
			l1, l2 := load1(c, p), load2(c, q)
			x := E.AddPair(g1.MulScalar(g1.New(), l1, s), l2).Result()
			y := E.AddPair(l1, g2.MulScalar(g2.New(), l2, s)).Result()
			z := G.New()
			G.Exp(z, r, s)
			if !G.Equal(x, y) || !G.Equal(x, z) || !x.Equal(y) {
				c.Failf("pairing of %x and %x times the generators is not bilinear for %x", a, b, s)
			}
			c.Seen("bilinear", a, b, s)
			if ab.Sign() == 0 {
				c.Seen("identity operand", a, b)
			}
			// additive in each
			t := bl.G1.MulG(exponent(c))
			u := E.AddPair(load1(c, bl.G1.Add(p, t)), l2).Result()
			v := E.AddPair(l1, l2).AddPair(load1(c, t), l2).Result()
			if !G.Equal(u, v) {
				c.Failf("pairing is not additive: %x, %x, %x", bl.G1.Raw(p), bl.G1.Raw(t), bl.G2.Raw(q))
			}
			c.Sample("e(%x G1, %x G2)", a, b)
		}},
		{Name: "product", Quick: 480, Thorough: 60000, Classes: []string{"product/one", "product/not one", "product/with identities", "product/with inverses", "product/many"}, Fn: func(c *mon.Ctx) {
			E := bls.NewEngine()
			if c.Bool() { // an engine that was in use before
				E.AddPair(load1(c, bl.G1.G), load2(c, bl.G2.G))
				if E.Check() {
					c.Failf("the pairing of the generators is one")
				}
				E.Reset()
			}
			n := c.Intn(7)
			if c.I%40 == 7 { // more than fit in 4, 5 or 6 bits
				n = []int{9, 16, 17, 33, 65, 70}[c.I/40%6]
			}
			sum := new(big.Int)
			desc := ""
			var as, bs []*big.Int
			add := func(a, b *big.Int, inv bool) {
				p, q := load1(c, bl.G1.MulG(a)), load2(c, bl.G2.MulG(b))
				k1, k2 := *p, *q
				t := new(big.Int).Mul(a, b)
				if inv {
					E.AddPairInv(p, q)
					sum.Sub(sum, t)
					c.Seen("product/with inverses", a, b)
				} else {
					E.AddPair(p, q)
					sum.Add(sum, t)
				}
				if *p != k1 || *q != k2 {
					c.Failf("adding a pair changed a point")
				}
				sum.Mod(sum, bl.R)
				as, bs = append(as, a), append(bs, b)
				desc += fmt.Sprintf("(%x %x %v)", a, b, inv)
				if t.Sign() == 0 {
					c.Seen("product/with identities", a, b)
				}
				// the engine may overwrite what it was given before it is asked
				if c.Intn(4) == 0 {
					bls.NewG1().Double(p, p)
					bls.NewG2(nil).Neg(q, q)
				}
			}
			for i := 0; i < n; i++ {
				a, b, inv := exponent(c), exponent(c), c.Intn(3) == 0
				if i > 0 && c.Intn(4) == 0 { // cancel an earlier one: (b, a) inverted, or (-a, b)
					j := c.Intn(i)
					a, b, inv = bs[j], as[j], true
					if c.Bool() {
						a, b, inv = new(big.Int).Sub(bl.R, as[j]), bs[j], false
					}
				}
				add(a, b, inv)
			}
			if c.Intn(3) > 0 && sum.Sign() != 0 { // make the product one
				b := c.Scalar(bl.R)
				a := new(big.Int).ModInverse(b, bl.R)
				a.Mul(a, sum).Mod(a, bl.R)
				add(a, b, true)
			}
			for i := 0; i < 2; i++ {
				if got := E.Check(); got != (sum.Sign() == 0) {
					c.Failf("Check of the product of %s is %v", desc, got)
				}
			}
			c.Eq("product of "+desc, gt(E.Result()), base.Exp(sum).Bytes())
			if len(as) > 8 {
				c.Seen("product/many", desc)
			}
			if sum.Sign() == 0 {
				c.Seen("product/one", desc)
			} else {
				c.Seen("product/not one", desc)
			}
			if !E.Check() || !E.Result().IsOne() {
				c.Failf("the engine keeps pairs after Result")
			}
		}},
		{Name: "field", Quick: 1000, Thorough: 100000, Classes: []string{"field/multiplication", "field/inversion"}, Fn: func(c *mon.Ctx) {
			G := bls.NewGT()
			x, a := element(c)
			y, b := element(c)
			if c.Intn(5) == 0 {
				y, b = x, a
			}
			ab, bb := a.Bytes(), b.Bytes()
			c.Eq("element", gt(x), ab)
			c.Eq("element", gt(y), bb)
			z := G.New()
			res := func(what string, want bl.Fp12) {
				c.Eq(what+" of "+mon.Hex(ab)+" and "+mon.Hex(bb), gt(z), want.Bytes())
			}
			G.Mul(z, x, y)
			res("Mul", a.Mul(b))
			c.Seen("field/multiplication", ab, bb)
			G.Add(z, x, y)
			res("Add", a.Add(b))
			G.Sub(z, x, y)
			res("Sub", a.Sub(b))
			G.Copy(z, x)
			res("Copy", a)
			G.Mul(z, z, y)
			res("Mul in place", a.Mul(b))
			G.Copy(z, y)
			G.Mul(z, x, z)
			res("Mul in place", a.Mul(b))
			G.Copy(z, x)
			G.Mul(z, z, z)
			res("Mul of one object", a.Mul(a))
			G.Copy(z, x)
			G.Add(z, z, z)
			res("Add of one object", a.Add(a))
			G.Copy(z, x)
			G.Sub(z, z, y)
			res("Sub in place", a.Sub(b))
			if a != (bl.Fp12{}) {
				G.Inverse(z, x)
				G.Mul(z, z, x)
				res("element times its inverse", one)
				G.Copy(z, x)
				G.Inverse(z, z)
				G.Mul(z, z, x)
				res("element times its inverse in place", one)
				c.Seen("field/inversion", ab)
			}
			c.Eq("first operand", gt(x), ab)
			c.Eq("second operand", gt(y), bb)
			if G.Equal(x, y) != (a == b) || x.Equal(y) != (a == b) || G.IsOne(x) != (a == one) || x.IsOne() != (a == one) {
				c.Failf("comparison of %x and %x", ab, bb)
			}
		}},
		{Name: "target group", Quick: 500, Thorough: 60000, Classes: []string{"power", "membership/true", "membership/false", "encoding refused", "stray/small order", "stray/cyclotomic", "stray/subfield"}, Fn: func(c *mon.Ctx) {
			G := bls.NewGT()
			k, s := exponent(c), exponent(c)
			if c.Intn(8) == 0 {
				s = c.Big(new(big.Int).Lsh(big.NewInt(1), uint(1+c.Intn(700))))
			}
			a := base.Exp(k)
			x, err := G.FromBytes(a.Bytes())
			if err != nil {
				c.Failf("FromBytes of the base to the %x: %v", k, err)
			}
			z := G.New()
			G.Exp(z, x, s)
			c.Eq(fmt.Sprintf("base to the %x to the %x", k, s), gt(z), a.Exp(s).Bytes())
			c.Seen("power", k, s)
			G.Square(z, x)
			c.Eq("square", gt(z), a.Mul(a).Bytes())
			G.Copy(z, x)
			G.Square(z, z)
			c.Eq("square in place", gt(z), a.Mul(a).Bytes())
			G.Copy(z, x)
			G.Exp(z, z, s)
			c.Eq("power in place", gt(z), a.Exp(s).Bytes())
			G.Inverse(z, x)
			c.Eq("inverse", gt(z), a.Exp(new(big.Int).Sub(bl.R, big.NewInt(1))).Bytes())
			if !G.IsValid(x) {
				c.Failf("IsValid refuses the base to the %x", k)
			}
			c.Seen("membership/true", k)
			if G.Q().Cmp(bl.R) != 0 {
				c.Failf("order %x", G.Q())
			}
			G.Q().SetInt64(3)
			// elements outside, and strings that are no element
			e := randomE(c)
			if c.Intn(4) == 0 {
				e = a.Add(base)
			}
			if c.Intn(8) == 0 { // of order two
				e = bl.Fp12{}.Sub(one)
			}
			in := c.I%4 == 0 && e.Exp(bl.R) == one || e == one
			if c.I%4 == 0 || e != one {
				_, err := G.FromBytes(e.Bytes())
				if (err == nil) != in {
					c.Failf("FromBytes of %x: %v, reference %v", e.Bytes(), err, in)
				}
				if !in {
					c.Seen("membership/false", e.Bytes())
				}
			}
			if c.I%2 == 0 {
				e, what := stray(c)
				if G.IsValid(set(e.Tower())) {
					c.Failf("IsValid accepts %x, %s", e.Bytes(), what)
				}
				if _, err := G.FromBytes(e.Bytes()); err == nil {
					c.Failf("FromBytes accepts %x, %s", e.Bytes(), what)
				}
				if err := root.NewBLS12381Suite().GT().Point().UnmarshalBinary(e.Bytes()); err == nil {
					c.Failf("UnmarshalBinary accepts %x, %s", e.Bytes(), what)
				}
				c.Seen("stray/"+what, e.Bytes())
			}
			b := a.Bytes()
			switch c.Intn(4) {
			case 0:
				b = b[:c.Intn(576)]
			case 1:
				b = append(b, c.Bytes(1+c.Intn(50))...)
			case 2: // a coordinate plus the prime
				i := 48 * c.Intn(12)
				v := new(big.Int).SetBytes(b[i : i+48])
				copy(b[i:], mon.B32(v.Add(v, bl.P), 48))
			case 3:
				b[c.Intn(576)] ^= 1 << uint(c.Intn(8))
			}
			if _, err := G.FromBytes(b); err == nil {
				c.Failf("FromBytes accepts %x", b)
			}
			c.Seen("encoding refused", b)
		}},
		{Name: "suite", Quick: 300, Thorough: 20000, Classes: []string{"suite/valid", "suite/invalid"}, Fn: func(c *mon.Ctx) {
			s := root.NewBLS12381Suite()
			mk := func(k kyber.Point, b []byte) kyber.Point {
				if err := k.UnmarshalBinary(b); err != nil {
					c.Failf("%x: %v", b, err)
				}
				return k
			}
			a, b, d := exponent(c), exponent(c), exponent(c)
			e := exponent(c)
			if c.Bool() && d.Sign() != 0 {
				e.ModInverse(d, bl.R)
				e.Mul(e, a).Mul(e, b).Mod(e, bl.R)
			}
			p1, p2 := mk(s.G1().Point(), bl.G1.Comp(bl.G1.MulG(a))), mk(s.G2().Point(), bl.G2.Comp(bl.G2.MulG(b)))
			p3, p4 := mk(s.G1().Point(), bl.G1.Comp(bl.G1.MulG(d))), mk(s.G2().Point(), bl.G2.Comp(bl.G2.MulG(e)))
			ab, de := new(big.Int).Mul(a, b), new(big.Int).Mul(d, e)
			ab.Mod(ab, bl.R)
			de.Mod(de, bl.R)
			type validator interface {
				ValidatePairing(p1, p2, p3, p4 kyber.Point) bool
			}
			if got := s.(validator).ValidatePairing(p1, p2, p3, p4); got != (ab.Cmp(de) == 0) {
				c.Failf("ValidatePairing of %x %x %x %x is %v", a, b, d, e, got)
			} else {
				c.Seen(map[bool]string{true: "suite/valid", false: "suite/invalid"}[got], a, b, d, e)
			}
			x, y := s.Pair(p1, p2), s.Pair(p3, p4)
			marshal := func(what string, k kyber.Point, want bl.Fp12) {
				b, err := k.MarshalBinary()
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				c.Eq(what, b, want.Bytes())
			}
			marshal("Pair", x, base.Exp(ab))
			marshal("Pair", y, base.Exp(de))
			if x.Equal(y) != (ab.Cmp(de) == 0) {
				c.Failf("Equal in the target group")
			}
			sum := new(big.Int).Add(ab, de)
			dif := new(big.Int).Sub(ab, de)
			marshal("Add", s.GT().Point().Add(x, y), base.Exp(sum))
			marshal("Sub", s.GT().Point().Sub(x, y), base.Exp(dif.Mod(dif, bl.R)))
			marshal("Null", s.GT().Point().Null(), one)
			marshal("Null of another element", x.Clone().Null(), one)
			if str := x.(fmt.Stringer).String(); !strings.HasSuffix(str, hex.EncodeToString(base.Exp(ab).Bytes())) {
				c.Failf("String gives %s", str)
			}
			cl := x.Clone()
			st := s.GT().Point().Set(x)
			x.Add(x, y)
			marshal("Add in place", x, base.Exp(sum))
			marshal("Clone", cl, base.Exp(ab))
			marshal("Set", st, base.Exp(ab))
			var w bytes.Buffer
			if n, err := y.MarshalTo(&w); n != 576 || err != nil {
				c.Failf("MarshalTo %d %v", n, err)
			}
			z := s.GT().Point()
			if n, err := z.UnmarshalFrom(&w); n != 576 || err != nil {
				c.Failf("UnmarshalFrom %d %v", n, err)
			}
			marshal("UnmarshalFrom", z, base.Exp(de))
		}},
	})
}
