// C29: every build configuration computes the same results. Every case writes the outcome of
// its calls to a trace; the supervisor compares the traces of all builds line by line.
package main

import (
	"fmt"
	"math/big"

	bb "github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/sha3"

	"owverif/internal/api"
	"owverif/internal/bl"
	"owverif/internal/mon"
)

var p381, _ = new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)

func run(c *mon.Ctx, k *api.Call) {
	var r api.Res
	what := ""
	if p := mon.Try(func() { r = k.Run() }); p != "" {
		what = "panic"
	} else {
		what = r.String()
	}
	c.Trace("%s %s -> %s", k.Label(), k.Digest(), what)
}

// fp is a field element that makes carries and reductions happen.
func fp(c *mon.Ctx) *big.Int {
	v := new(big.Int)
	switch c.Intn(5) {
	case 0: // words of zeros and ones
		for i := 0; i < 6; i++ {
			w := []uint64{0, 1, 1<<64 - 1, 1 << 63, 1<<32 - 1, 1<<64 - 2}[c.Intn(6)]
			v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w))
		}
	case 1:
		v.Set(c.SmallX(p381))
	case 2: // the internal form is such a number
		for i := 0; i < 6; i++ {
			w := []uint64{0, 1, 1<<64 - 1, 1 << 63, 1<<32 - 1, c.U64()}[c.Intn(6)]
			v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w))
		}
		ri := new(big.Int).ModInverse(new(big.Int).Lsh(big.NewInt(1), 384), p381)
		v.Mul(v, ri)
	case 3: // words of the prime, changed a little
		v.Set(p381)
		v.Sub(v, new(big.Int).Lsh(big.NewInt(int64(c.Intn(5))), uint(64*c.Intn(6))))
		v.Abs(v)
	default:
		v.Set(c.Big(p381))
	}
	return v.Mod(v, p381)
}

// word gives the six words of a field element in the internal form, below the prime.
func word(c *mon.Ctx) (w [6]uint64) {
	v := new(big.Int)
	switch c.Intn(6) {
	case 0: // zero
	case 1: // one, or minus one
		v.Lsh(big.NewInt(1), 384)
		if c.Bool() {
			v.Neg(v)
		}
	case 2:
		v.SetUint64(c.U64())
		v.Lsh(v, uint(64*c.Intn(6)))
	case 3:
		v.Set(p381)
		v.Sub(v, new(big.Int).Lsh(big.NewInt(int64(1+c.Intn(5))), uint(64*c.Intn(6))))
	default:
		v.Set(fp(c))
	}
	v.Mod(v, p381)
	b := mon.B32(v, 48)
	for i := range w {
		for j := 0; j < 8; j++ {
			w[5-i] = w[5-i]<<8 | uint64(b[8*i+j])
		}
	}
	return
}

func element(c *mon.Ctx) *bb.E {
	x := new(bb.E)
	if c.Intn(8) == 0 {
		x.One()
		return x
	}
	mask := c.U64()
	if c.Bool() {
		mask |= c.U64()
	}
	for i := 0; i < 12; i++ {
		if mask>>uint(i)&1 == 1 {
			x[i/6][i/2%3][i%2] = word(c)
		}
	}
	return x
}

func main() {
	var groups []mon.Group
	for _, f := range api.Funcs {
		f := f
		n := 260
		switch {
		case f.Slow > 2:
			n = 24
		case f.Slow == 2:
			n = 60
		case f.Name == "Signature", f.Name == "Verify", f.Name == "Hash":
			n = 900
		}
		groups = append(groups, mon.Group{Name: f.Name, Quick: n, Thorough: n * 120, Classes: []string{f.Name}, Fn: func(c *mon.Ctx) {
			k := api.Make(c, f, c.I%3 == 2)
			run(c, k)
			c.Seen(f.Name, k.T, k.N, k.Digest())
			c.Sample("%s", k.Label())
		}})
	}
	groups = append(groups,
		mon.Group{Name: "bls-field", Quick: 900, Thorough: 300000, Classes: []string{"G1 coordinates", "G2 coordinates", "target coordinates"}, Fn: func(c *mon.Ctx) {
			// elements of the fields of the pairing reach the arithmetic through the formulas
			// on (not necessarily valid) coordinates: all add, double, square, multiply, negate
			g := bb.NewG1()
			h := bb.NewG2(nil)
			gt := bb.NewGT()
			in := make([]byte, 0, 576)
			for i := 0; i < 12; i++ {
				in = append(in, mon.B32(fp(c), 48)...)
			}
			x, err := gt.FromBytes(in)
			if x == nil { // not in the group, and not given out
				en := bb.NewEngine()
				x = en.AddPair(g.One(), h.One()).Result()
			}
			c.Trace("gt member %v", err == nil)
			y, s := gt.New(), gt.New()
			gt.Mul(y, x, x)
			gt.Add(s, x, y)
			gt.Sub(s, s, x)
			gt.Mul(s, s, x)
			gt.Square(y, s)
			gt.Inverse(s, y)
			c.Trace("gt %x %x", gt.ToBytes(y), gt.ToBytes(s))
			c.Seen("target coordinates", in)
			// a point of the curve near the coordinate
			in1 := mon.B32(fp(c), 48)
			p, err := g.MapToCurve(in1)
			if err != nil {
				c.Failf("G1.MapToCurve refuses %x", in1)
			}
			q := g.New()
			g.Double(q, p)
			g.Add(q, q, p)
			e := c.Scalar0(g.Q())
			g.MulScalar(q, q, e)
			g.Sub(q, q, p)
			c.Trace("g1 %x %x %x", g.ToBytes(p), g.ToBytes(q), g.ToCompressed(q))
			c.Seen("G1 coordinates", in1)
			r, err := h.FromBytes(append(append([]byte{}, in[:96]...), in[96:192]...))
			c.Trace("g2 %v %v", r == nil, err == nil)
			// compressed points with a chosen abscissa: square roots
			comp := append([]byte{}, in[:96]...)
			comp[0] |= 0x80 | byte(c.Intn(2))<<5
			pt, err := h.FromCompressed(comp)
			if err == nil {
				w := h.New()
				h.Double(w, pt)
				c.Trace("g2 point %x %x", h.ToBytes(pt), h.ToBytes(w))
			} else {
				c.Trace("g2 refused")
			}
			c.Seen("G2 coordinates", comp)
		}},
		mon.Group{Name: "bls-words", Quick: 900, Thorough: 300000, Classes: []string{"extension field words", "G1 words", "G2 words", "zero operand", "operands with carries", "opposite operands", "equal operands"}, Fn: func(c *mon.Ctx) {
			gt := bb.NewGT()
			x, y := element(c), element(c)
			switch c.Intn(6) {
			case 0:
				*y = *x
				c.Seen("equal operands", x)
			case 1:
				gt.Sub(y, new(bb.E), x)
				c.Seen("opposite operands", x)
			case 2:
				*y = bb.E{}
				c.Seen("zero operand", x)
			case 3:
				a, b := bl.WordPair(c)
				*x, *y = bb.E{}, bb.E{}
				i := c.Intn(12)
				copy(x[i/6][i/2%3][i%2][:], a[:])
				copy(y[0][0][0][:], b[:])
				c.Seen("operands with carries", a, b)
			}
			r := [6]*bb.E{}
			for i := range r {
				r[i] = gt.New()
			}
			gt.Add(r[0], x, y)
			gt.Sub(r[1], x, y)
			gt.Mul(r[2], x, y)
			gt.Square(r[3], x)
			gt.Inverse(r[4], x)
			gt.Exp(r[5], x, new(big.Int).SetUint64(c.U64()>>uint(c.Intn(64))))
			c.Trace("e %x %x", *x, *y)
			for i := range r {
				c.Trace("%d %x %v %v %v", i, *r[i], r[i].IsOne(), gt.Equal(r[i], x), gt.Equal(r[i], y))
			}
			p := gt.New()
			gt.Mul(p, r[4], x)
			c.Trace("one %v %x %v", p.IsOne(), gt.ToBytes(r[4]), gt.IsValid(r[3]))
			c.Seen("extension field words", x, y)

			g, h := bb.NewG1(), bb.NewG2(nil)
			pt := func() (p bb.PointG1, q bb.PointG2) {
				if c.Intn(3) == 0 { // on the curve
					p, q = *g.One(), *h.One()
					g.MulScalar(&p, &p, c.Scalar0(g.Q()))
					h.MulScalar(&q, &q, c.Scalar0(g.Q()))
					if c.Bool() {
						g.Affine(&p)
						h.Affine(&q)
					}
					return
				}
				for i := range p {
					p[i] = word(c)
					q[i][0], q[i][1] = word(c), word(c)
				}
				switch c.Intn(4) {
				case 0:
					p[2] = g.One()[2]
					q[2] = h.One()[2]
				case 1:
					p[2] = g.Zero()[2]
					q[2] = h.Zero()[2]
				}
				return
			}
			a1, a2 := pt()
			b1, b2 := pt()
			switch c.Intn(4) {
			case 0:
				b1, b2 = a1, a2
			case 1:
				g.Neg(&b1, &a1)
				h.Neg(&b2, &a2)
			}
			e := new(big.Int).SetUint64(c.U64() >> uint(c.Intn(60)))
			var s1 [5]bb.PointG1
			g.Add(&s1[0], &a1, &b1)
			g.Double(&s1[1], &a1)
			g.Neg(&s1[2], &a1)
			g.Sub(&s1[3], &a1, &b1)
			g.MulScalar(&s1[4], &a1, e)
			c.Trace("g1 %x %x %x -> %x", a1, b1, e, s1)
			c.Trace("%v %v %v %v", g.Equal(&a1, &b1), g.IsZero(&a1), g.IsOnCurve(&a1), g.IsAffine(&a1))
			for i := range s1 {
				c.Trace("%v %x %x", g.IsOnCurve(&s1[i]), g.ToBytes(&s1[i]), g.ToCompressed(&s1[i]))
			}
			c.Seen("G1 words", a1, b1)
			var s2 [5]bb.PointG2
			h.Add(&s2[0], &a2, &b2)
			h.Double(&s2[1], &a2)
			h.Neg(&s2[2], &a2)
			h.Sub(&s2[3], &a2, &b2)
			h.MulScalar(&s2[4], &a2, e)
			c.Trace("g2 %x %x %x -> %x", a2, b2, e, s2)
			c.Trace("%v %v %v %v", h.Equal(&a2, &b2), h.IsZero(&a2), h.IsOnCurve(&a2), h.IsAffine(&a2))
			for i := range s2 {
				c.Trace("%v %x %x", h.IsOnCurve(&s2[i]), h.ToBytes(&s2[i]), h.ToCompressed(&s2[i]))
			}
			c.Seen("G2 words", a2, b2)
		}},
		mon.Group{Name: "sha3-chunks", Quick: 1500, Thorough: 400000, Classes: []string{"keccak history"}, Fn: func(c *mon.Ctx) {
			// chunks of every length at every alignment
			mk := []func() interface {
				Write([]byte) (int, error)
				Sum([]byte) []byte
			}{
				func() interface {
					Write([]byte) (int, error)
					Sum([]byte) []byte
				} {
					return sha3.New256()
				},
				func() interface {
					Write([]byte) (int, error)
					Sum([]byte) []byte
				} {
					return sha3.New512()
				},
				func() interface {
					Write([]byte) (int, error)
					Sum([]byte) []byte
				} {
					return sha3.NewKeccak256()
				},
				func() interface {
					Write([]byte) (int, error)
					Sum([]byte) []byte
				} {
					return sha3.New224()
				},
			}[c.Intn(4)]()
			buf := c.Bytes(1200)
			s := ""
			for i := 0; i < 8; i++ {
				o := c.Intn(16)
				n := c.Len(800)
				mk.Write(buf[o : o+n])
				s += fmt.Sprint(o, "+", n, " ")
			}
			sh := []func() sha3.ShakeHash{sha3.NewShake128, sha3.NewShake256}[c.Intn(2)]()
			sh.Write(buf[:c.Len(700)])
			out := make([]byte, 800)
			at := 0
			for at < 780 {
				n := c.Len(300)
				if at+n > 800 {
					n = 800 - at
				}
				sh.Read(out[at : at+n])
				at += n + c.Intn(3)
				if at > 800 {
					break
				}
			}
			c.Trace("%x %x", mk.Sum(nil), out)
			c.Seen("keccak history", s, c.I)
		}},
	)
	mon.Main("C29", groups)
}
