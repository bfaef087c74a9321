// C17: the groups G1 and G2 and their encodings.
package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"strings"

	oc "github.com/blocktree/go-owcrypt"
	root "github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/drand/kyber"

	"owverif/internal/bl"
	"owverif/internal/mon"
	"owverif/internal/sw"
)

// group is what bls.G1 and bls.G2 have in common.
type group[P any] interface {
	FromUncompressed([]byte) (P, error)
	ToUncompressed(P) []byte
	FromCompressed([]byte) (P, error)
	ToCompressed(P) []byte
	FromBytes([]byte) (P, error)
	ToBytes(P) []byte
	New() P
	Zero() P
	One() P
	Copy(P, P) P
	IsZero(P) bool
	Equal(P, P) bool
	InCorrectSubgroup(P) bool
	IsOnCurve(P) bool
	IsAffine(P) bool
	Affine(P) P
	Add(P, P, P) P
	Double(P, P) P
	Neg(P, P) P
	Sub(P, P, P) P
	MulScalar(P, P, *big.Int) P
	ClearCofactor(P)
	MultiExp(P, []P, []*big.Int) (P, error)
	Q() *big.Int
}

type fieldOf[F any] interface {
	comparable
	Add(F) F
	Sub(F) F
	Neg() F
	Mul(F) F
	Inv() F
	IsZero() bool
	One() F
	Sqrt() (F, bool)
	Large() bool
	Sgn0() uint
	Bytes() []byte
}

type suite[F fieldOf[F], P any] struct {
	name  string
	g     func() group[*P]
	c     *bl.Curve[F]
	clear func(bl.Pt[F]) bl.Pt[F]
	off   func(i int) bl.Pt[F]
	kp    func() kyber.Point
}

var one = big.NewInt(1)

// elem is a small, large or random coordinate, as its bytes.
func (s *suite[F, P]) coord(c *mon.Ctx) []byte {
	f := func() []byte {
		switch c.Intn(8) {
		case 6, 7:
			return bl.Special(c).Bytes()
		case 0:
			return mon.B32(big.NewInt(int64(c.Intn(40))), 48)
		case 1:
			return mon.B32(new(big.Int).Sub(bl.P, big.NewInt(int64(1+c.Intn(40)))), 48)
		}
		return mon.B32(c.Big(bl.P), 48)
	}
	b := f()
	for len(b) < s.c.Len {
		b = append(b, f()...)
	}
	return b
}

// point is a point of the reference: in the subgroup mostly, of the curve otherwise if any is set.
func (s *suite[F, P]) point(c *mon.Ctx, any bool) bl.Pt[F] {
	switch c.Intn(9) {
	case 0:
		return bl.Pt[F]{Inf: true}
	case 1:
		return s.c.MulG(big.NewInt(int64(1 + c.Intn(6))))
	case 2:
		return s.c.MulG(big.NewInt(int64(-1 - c.Intn(6))))
	case 3, 4, 5:
		if any {
			return s.curvePoint(c)
		}
	}
	return s.c.MulG(c.Big(bl.R))
}

func (s *suite[F, P]) curvePoint(c *mon.Ctx) bl.Pt[F] {
	if c.Intn(4) == 0 { // of a small order, with or without a part in the subgroup
		t := s.off(3 * c.Intn(200))
		if c.Bool() {
			t = s.c.Add(t, s.c.MulG(c.Big(bl.R)))
		}
		return t
	}
	for {
		x, _ := s.c.Parse(s.coord(c))
		if p, ok := s.c.Lift(x, c.Bool()); ok {
			return p
		}
	}
}

// load gives the library's form of a point, in affine or other coordinates.
func (s *suite[F, P]) load(c *mon.Ctx, g group[*P], p bl.Pt[F]) *P {
	q, err := g.FromBytes(s.c.Raw(p))
	if err != nil {
		c.Failf("%s point %x refused: %v", s.name, s.c.Raw(p), err)
	}
	switch c.Intn(3) {
	case 0: // other coordinates for the same point
		o := s.curvePoint(c)
		oo, err := g.FromBytes(s.c.Raw(o))
		if err != nil {
			c.Failf("%s point %x refused: %v", s.name, s.c.Raw(o), err)
		}
		g.Add(q, q, oo)
		if c.Bool() {
			g.Double(oo, oo)
			g.Sub(q, q, oo)
			oo, _ = g.FromBytes(s.c.Raw(o))
			g.Add(q, q, oo)
		} else {
			g.Sub(q, q, oo)
		}
		c.Seen("coordinates/projective")
	case 1:
		if p.Inf { // identity in another form
			switch c.Intn(3) {
			case 0:
				q = g.New()
			case 1:
				q = g.Zero()
			case 2: // the zero value: any triple with z = 0 is the identity
				q = new(P)
			}
		}
	}
	return q
}

func (s *suite[F, P]) same(c *mon.Ctx, what string, g group[*P], got *P, want bl.Pt[F], in ...interface{}) {
	cp := g.Copy(g.New(), got)
	if b := g.ToBytes(cp); !bytes.Equal(b, s.c.Raw(want)) {
		c.Failf("%s %s of %x: %x, reference %x", s.name, what, in, b, s.c.Raw(want))
	}
	if g.IsZero(got) != want.Inf {
		c.Failf("%s %s of %x: IsZero is %v", s.name, what, in, g.IsZero(got))
	}
	if !g.IsOnCurve(got) {
		c.Failf("%s %s of %x: IsOnCurve is false", s.name, what, in)
	}
	c.Seen(s.name+"/"+what, in...)
}

func (s *suite[F, P]) arithmetic(c *mon.Ctx) {
	g := s.g()
	p, q := s.point(c, true), s.point(c, true)
	switch c.Intn(6) {
	case 0:
		q = p
	case 1:
		q = s.c.Neg(p)
	case 2:
		q = s.c.Add(p, p)
	}
	ra, rb := s.c.Raw(p), s.c.Raw(q)
	a, b := s.load(c, g, p), s.load(c, g, q)
	// fresh or aliased result
	sa, sb := *a, *b
	ca := func() *P { return g.Copy(g.New(), a) }
	cb := func() *P { return g.Copy(g.New(), b) }
	res := func() *P {
		if c.Bool() {
			return g.New()
		}
		return s.load(c, g, s.point(c, true))
	}
	sum := s.c.Add(p, q)
	s.same(c, "Add", g, g.Add(res(), a, b), sum, ra, rb)
	x := ca()
	s.same(c, "Add onto the first", g, g.Add(x, x, b), sum, ra, rb)
	x = cb()
	s.same(c, "Add onto the second", g, g.Add(x, a, x), sum, ra, rb)
	dif := s.c.Add(p, s.c.Neg(q))
	s.same(c, "Sub", g, g.Sub(res(), a, b), dif, ra, rb)
	x = ca()
	s.same(c, "Sub onto the first", g, g.Sub(x, x, b), dif, ra, rb)
	x = cb()
	s.same(c, "Sub onto the second", g, g.Sub(x, a, x), dif, ra, rb)
	dbl := s.c.Add(p, p)
	s.same(c, "Double", g, g.Double(res(), a), dbl, ra)
	x = ca()
	s.same(c, "Double in place", g, g.Double(x, x), dbl, ra)
	x = ca()
	s.same(c, "Add of one object", g, g.Add(x, x, x), dbl, ra)
	s.same(c, "Add of one object twice", g, g.Add(res(), a, a), dbl, ra)
	x = ca()
	s.same(c, "Sub of one object", g, g.Sub(x, x, x), bl.Pt[F]{Inf: true}, ra)
	neg := s.c.Neg(p)
	s.same(c, "Neg", g, g.Neg(res(), a), neg, ra)
	x = ca()
	s.same(c, "Neg in place", g, g.Neg(x, x), neg, ra)
	if any(sa) != any(*a) || any(sb) != any(*b) {
		c.Failf("%s: an operand of the arithmetic changed, %x %x", s.name, ra, rb)
	}
	// comparisons
	if g.Equal(a, b) != (p == q) || !g.Equal(a, ca()) {
		c.Failf("%s Equal of %x and %x", s.name, ra, rb)
	}
	if p == q {
		c.Seen(s.name+"/equal operands", ra)
	} else if p == s.c.Neg(q) {
		c.Seen(s.name+"/opposite operands", ra)
	}
	if p.Inf || q.Inf {
		c.Seen(s.name+"/identity operand", ra, rb)
	}
	s.same(c, "Affine", g, g.Affine(ca()), p, ra)
	if !p.Inf && !g.IsAffine(g.Affine(ca())) {
		c.Failf("%s Affine of %x is not affine", s.name, ra)
	}
	c.Sample("%s %x + %x", s.name, ra, rb)
}

func scalar(c *mon.Ctx) *big.Int {
	switch c.Intn(8) {
	case 0:
		return big.NewInt(int64(c.Intn(40)))
	case 1:
		return new(big.Int).Add(bl.R, big.NewInt(int64(c.Intn(9)-4)))
	case 2:
		return new(big.Int).Lsh(one, uint(c.Intn(256)))
	case 3:
		return c.Big(new(big.Int).Lsh(one, 256))
	case 4:
		k := new(big.Int).Lsh(one, uint(c.Intn(256)))
		return k.Sub(k, one)
	}
	return c.Big(bl.R)
}

func (s *suite[F, P]) multiply(c *mon.Ctx) {
	g := s.g()
	p := s.point(c, true)
	ra := s.c.Raw(p)
	k := scalar(c)
	if c.I%50 == 7 {
		k = c.Big(new(big.Int).Lsh(one, uint(700)))
	}
	k0 := new(big.Int).Set(k)
	a := s.load(c, g, p)
	want := s.c.Mul(p, k)
	keep := *a
	s.same(c, "MulScalar", g, g.MulScalar(g.New(), a, k), want, ra, k)
	if any(keep) != any(*a) || k.Cmp(k0) != 0 {
		c.Failf("%s MulScalar of %x by %x changed an operand", s.name, ra, k0)
	}
	s.same(c, "MulScalar in place", g, g.MulScalar(a, a, k), want, ra, k)
	b := s.load(c, g, p)
	g.ClearCofactor(b)
	s.same(c, "ClearCofactor", g, b, s.clear(p), ra)
	if !g.InCorrectSubgroup(b) {
		c.Failf("%s InCorrectSubgroup refuses a cleared %x", s.name, ra)
	}
	b = s.load(c, g, p)
	if in := s.c.In(p); g.InCorrectSubgroup(b) != in {
		c.Failf("%s InCorrectSubgroup of %x is %v", s.name, ra, !in)
	} else {
		c.Seen(fmt.Sprintf("%s/subgroup %v", s.name, in), ra)
	}
	if g.Q().Cmp(bl.R) != 0 {
		c.Failf("%s order %x", s.name, g.Q())
	}
	// what is given out may be changed
	g.Q().SetInt64(5)
	x := g.One()
	s.same(c, "One", g, x, s.c.G, c.I)
	g.Double(x, x)
	x = g.Zero()
	s.same(c, "Zero", g, x, bl.Pt[F]{Inf: true}, c.I)
	g.Add(x, x, g.One())
}

func (s *suite[F, P]) multiExp(c *mon.Ctx) {
	g := s.g()
	n := []int{0, 1, 2, 3, 5, 8, 30, 31, 32, 33, 40, 99, 100, 101, 120}[c.I%15]
	if c.Tier == "thorough" && c.I%97 == 3 {
		n = 998 + c.Intn(6)
	}
	var ps []*P
	var ks, ks0 []*big.Int
	var rs []bl.Pt[F]
	want := bl.Pt[F]{Inf: true}
	for i := 0; i < n; i++ {
		var p bl.Pt[F]
		if i > 0 && c.Intn(6) == 0 {
			p = rs[c.Intn(i)]
		} else if i < 12 {
			p = s.point(c, false)
		} else {
			p = s.c.Add(rs[i-1], rs[i-12])
		}
		if c.Intn(9) == 0 {
			p = s.c.Neg(p)
		}
		k := scalar(c)
		if i > 0 && c.Intn(6) == 0 {
			k = ks[c.Intn(i)]
		}
		if c.I%4 == 1 && i == n-1 {
			k = c.Big(new(big.Int).Lsh(one, uint(256+c.Intn(500))))
			c.Seen(s.name+"/long power", k, n)
		}
		rs = append(rs, p)
		ps = append(ps, s.load(c, g, p))
		ks = append(ks, k)
		ks0 = append(ks0, new(big.Int).Set(k))
		want = s.c.Add(want, s.c.Mul(p, k))
	}
	r := g.New()
	if c.Bool() {
		r = s.load(c, g, s.point(c, false))
	}
	if n > 0 && c.Intn(3) == 0 {
		r = ps[0]
	}
	got, err := g.MultiExp(r, ps, ks)
	if err != nil {
		c.Failf("%s MultiExp of %d: %v", s.name, n, err)
	}
	s.same(c, "MultiExp", g, got, want, n, ks, s.c.Raw(want))
	s.same(c, "MultiExp result", g, r, want, n, ks, s.c.Raw(want))
	for i := range ks {
		if ks[i].Cmp(ks0[i]) != 0 {
			c.Failf("%s MultiExp changed a scalar", s.name)
		}
	}
	if _, err := g.MultiExp(g.New(), append(ps, g.One()), ks); err == nil {
		c.Failf("%s MultiExp accepts %d points and %d scalars", s.name, n+1, n)
	}
	if n > 0 {
		if _, err := g.MultiExp(g.New(), ps[1:], ks); err == nil {
			c.Failf("%s MultiExp accepts %d points and %d scalars", s.name, n-1, n)
		}
	}
}

// decode gives one string to the three decoders.
func (s *suite[F, P]) decode(c *mon.Ctx, g group[*P], b []byte) {
	in := append([]byte{}, b...)
	if len(b) <= s.c.Len {
		want, ok := s.c.FromComp(b)
		ok = ok && s.c.In(want)
		p, err := g.FromCompressed(b)
		if (err == nil) != ok {
			c.Failf("%s FromCompressed of %x: %v, reference %v", s.name, b, err, ok)
		}
		if ok {
			s.same(c, "FromCompressed", g, p, want, b)
			c.Eq(s.name+" compressed again", g.ToCompressed(p), b)
		} else if p != nil {
			c.Failf("%s FromCompressed of %x: a point with the error", s.name, b)
		} else {
			c.Seen(s.name+"/compressed refused", b)
		}
	}
	if len(b) <= 2*s.c.Len {
		want, ok := s.c.FromFull(b)
		ok = ok && s.c.In(want)
		p, err := g.FromUncompressed(b)
		if (err == nil) != ok {
			c.Failf("%s FromUncompressed of %x: %v, reference %v", s.name, b, err, ok)
		}
		if ok {
			s.same(c, "FromUncompressed", g, p, want, b)
			c.Eq(s.name+" uncompressed again", g.ToUncompressed(p), b)
		} else if p != nil {
			c.Failf("%s FromUncompressed of %x: a point with the error", s.name, b)
		} else {
			c.Seen(s.name+"/uncompressed refused", b)
		}
		want, ok = s.c.FromRaw(b)
		p, err = g.FromBytes(b)
		if (err == nil) != ok {
			c.Failf("%s FromBytes of %x: %v, reference %v", s.name, b, err, ok)
		}
		if ok {
			s.same(c, "FromBytes", g, p, want, b)
			c.Eq(s.name+" raw again", g.ToBytes(p), b)
		} else if p != nil {
			c.Failf("%s FromBytes of %x: a point with the error", s.name, b)
		} else {
			c.Seen(s.name+"/raw refused", b)
		}
	}
	if !bytes.Equal(in, b) {
		c.Failf("%s: decoding changed %x to %x", s.name, in, b)
	}
}

func (s *suite[F, P]) encodings(c *mon.Ctx) {
	g := s.g()
	p := s.point(c, c.Bool())
	comp, full, raw := s.c.Comp(p), s.c.Full(p), s.c.Raw(p)
	a := s.load(c, g, p)
	c.Eq(s.name+" ToCompressed", g.ToCompressed(g.Copy(g.New(), a)), comp)
	c.Eq(s.name+" ToUncompressed", g.ToUncompressed(g.Copy(g.New(), a)), full)
	c.Eq(s.name+" ToBytes", g.ToBytes(g.Copy(g.New(), a)), raw)
	c.Seen(s.name+"/encoded", raw)
	for _, b := range [][]byte{comp, full, raw} {
		s.decode(c, g, b)
		m := append([]byte{}, b...)
		switch c.Intn(7) {
		case 0:
			m[0] ^= byte(1+c.Intn(7)) << 5
		case 1:
			m[c.Intn(len(m))] ^= 1 << uint(c.Intn(8))
		case 2:
			m = m[:c.Intn(len(m))]
		case 3: // the same coordinate plus the prime, where it fits
			i := 48 * c.Intn(len(m)/48)
			flags := byte(0)
			if i == 0 && len(b) == s.c.Len || i == 0 && c.Bool() {
				flags = m[0] & 0xe0
			}
			x := new(big.Int).SetBytes(m[i : i+48])
			x.And(x, new(big.Int).Sub(new(big.Int).Lsh(one, 381), one))
			x.Add(x, bl.P)
			copy(m[i:], mon.B32(x, 48))
			if i == 0 {
				if x.BitLen() > 381 {
					m[0] &= 0x1f
				}
				m[0] |= flags
			}
		case 4:
			m[0] |= 0x40
		case 5:
			for i := 1; i < len(m); i++ {
				m[i] = 0
			}
			m[0] = []byte{0xc0, 0x40, 0, 0x80, 0xe0, 0xa0, 0x20, 0x60}[c.Intn(8)]
			if c.Bool() {
				m[c.Intn(len(m))] |= byte(1 << uint(c.Intn(8)))
			}
		case 6:
			if len(m) >= 96 { // swapped halves
				h := len(m) / 2
				m = append(append([]byte{}, m[h:]...), m[:h]...)
			}
		}
		s.decode(c, g, m)
	}
	if c.Intn(3) == 0 { // a coordinate of its own: on the curve or not
		x := s.coord(c)
		x[0] |= []byte{0x80, 0xa0}[c.Intn(2)]
		s.decode(c, g, x)
		f := append(s.coord(c), s.coord(c)...)
		s.decode(c, g, f)
		f = s.c.Raw(s.curvePoint(c))
		s.decode(c, g, f)
		q, _ := s.c.FromRaw(f)
		s.decode(c, g, s.c.Comp(q))
	}
}

func (s *suite[F, P]) wrapper(c *mon.Ctx) {
	mk := func(p bl.Pt[F]) kyber.Point {
		k := s.kp()
		if err := k.UnmarshalBinary(s.c.Comp(p)); err != nil {
			c.Failf("%s UnmarshalBinary of %x: %v", s.name, s.c.Comp(p), err)
		}
		return k
	}
	is := func(what string, k kyber.Point, want bl.Pt[F], in ...interface{}) {
		b, err := k.MarshalBinary()
		if err != nil || !bytes.Equal(b, s.c.Comp(want)) {
			c.Failf("%s %s of %x: %x %v, reference %x", s.name, what, in, b, err, s.c.Comp(want))
		}
		c.Seen(s.name+"/wrapper "+what, in...)
	}
	p, q := s.point(c, false), s.point(c, false)
	if c.Intn(4) == 0 {
		q = p
	}
	k := c.Big(bl.R)
	kb := mon.B32(k, 32)
	a, b := mk(p), mk(q)
	ra, rb := s.c.Comp(p), s.c.Comp(q)
	is("Add", s.kp().Add(a, b), s.c.Add(p, q), ra, rb)
	is("Sub", s.kp().Sub(a, b), s.c.Add(p, s.c.Neg(q)), ra, rb)
	is("Neg", s.kp().Neg(a), s.c.Neg(p), ra)
	is("Mul", s.kp().Mul(root.NewScalar(kb), a), s.c.Mul(p, k), ra, kb)
	is("Mul of the base", s.kp().Mul(root.NewScalar(kb), nil), s.c.MulG(k), kb)
	if a.Equal(b) != (p == q) {
		c.Failf("%s Equal of %x and %x", s.name, ra, rb)
	}
	cl := a.Clone()
	x := a.Clone()
	x.Add(x, b)
	is("Add in place", x, s.c.Add(p, q), ra, rb)
	is("Clone", cl, p, ra)
	for _, o := range []struct {
		w    string
		f    func(x, y kyber.Point) kyber.Point
		want bl.Pt[F]
	}{
		{"Add onto the second", func(x, y kyber.Point) kyber.Point { return y.Add(x, y) }, s.c.Add(p, q)},
		{"Sub in place", func(x, y kyber.Point) kyber.Point { return x.Sub(x, y) }, s.c.Add(p, s.c.Neg(q))},
		{"Sub onto the second", func(x, y kyber.Point) kyber.Point { return y.Sub(x, y) }, s.c.Add(p, s.c.Neg(q))},
		{"doubling in place", func(x, y kyber.Point) kyber.Point { return x.Add(x, x) }, s.c.Add(p, p)},
		{"Sub of itself in place", func(x, y kyber.Point) kyber.Point { return x.Sub(x, x) }, s.c.Add(p, s.c.Neg(p))},
		{"Neg in place", func(x, y kyber.Point) kyber.Point { return x.Neg(x) }, s.c.Neg(p)},
		{"Mul in place", func(x, y kyber.Point) kyber.Point { return x.Mul(root.NewScalar(kb), x) }, s.c.Mul(p, k)},
	} {
		x, y := a.Clone(), b.Clone()
		is(o.w, o.f(x, y), o.want, ra, rb, kb)
	}
	x = s.kp().Set(b)
	b.Add(b, a)
	is("Set", x, q, rb)
	b = mk(q)
	var w bytes.Buffer
	n, err := a.MarshalTo(&w)
	if err != nil || n != s.c.Len || a.MarshalSize() != n {
		c.Failf("%s MarshalTo: %d %v", s.name, n, err)
	}
	w.Write(rb)
	y := s.kp()
	if n, err := y.UnmarshalFrom(&w); err != nil || n != s.c.Len {
		c.Failf("%s UnmarshalFrom: %d %v", s.name, n, err)
	}
	is("UnmarshalFrom", y, p, ra)
	if _, err := y.UnmarshalFrom(io.LimitReader(&w, int64(s.c.Len-1))); err == nil {
		c.Failf("%s UnmarshalFrom of a short stream", s.name)
	}
	if !a.(root.GroupChecker).IsInCorrectGroup() {
		c.Failf("%s IsInCorrectGroup of %x", s.name, ra)
	}
	is("Null", a.Clone().Null(), bl.Pt[F]{Inf: true}, ra)
	is("Base", a.Clone().Base(), s.c.MulG(one), ra)
	if err := a.Clone().UnmarshalBinary(rb[:s.c.Len-1-c.Intn(s.c.Len-1)]); err == nil {
		c.Failf("%s UnmarshalBinary accepts a part of %x", s.name, rb)
	}
	if n, err := a.MarshalTo(full{}); err == nil || n != 0 {
		c.Failf("%s MarshalTo a writer that fails: %d %v", s.name, n, err)
	}
	if str := a.String(); !strings.HasSuffix(str, hex.EncodeToString(ra)) || !strings.Contains(str, s.name) {
		c.Failf("%s String of %x: %q", s.name, ra, str)
	}
	// a picked point depends on the stream alone
	seed := c.Bytes(32)
	seed2 := sw.Mutate(c, seed)
	if len(seed2) > 32 {
		seed2 = seed2[:32]
	}
	pick := func(k kyber.Point, seed []byte) kyber.Point {
		x := k.Pick(&stream{seed})
		if !x.(root.GroupChecker).IsInCorrectGroup() {
			c.Failf("%s Pick gives %v, outside of the subgroup", s.name, x)
		}
		return x
	}
	x, y = pick(a.Clone(), seed), pick(b.Clone(), seed)
	if !x.Equal(y) || x.Equal(a) || y.Equal(b) {
		c.Failf("%s Pick with stream %x onto %x and %x gives %v and %v", s.name, seed, ra, rb, x, y)
	}
	if z := pick(a.Clone(), seed2); z.Equal(x) != bytes.Equal(pad32(seed), pad32(seed2)) {
		c.Failf("%s Pick gives %v with streams %x and %x", s.name, z, seed, seed2)
	}
	c.Seen(s.name+"/Pick", seed)
	o := s.curvePoint(c)
	if err := s.kp().UnmarshalBinary(s.c.Comp(o)); err == nil && !s.c.In(o) {
		c.Failf("%s UnmarshalBinary accepts %x outside of the subgroup", s.name, s.c.Comp(o))
	}
}

// stream yields the given bytes, then zeros.
type stream struct{ b []byte }

func (s *stream) XORKeyStream(dst, src []byte) {
	for i := range src {
		dst[i] = src[i]
		if len(s.b) > 0 {
			dst[i] ^= s.b[0]
			s.b = s.b[1:]
		}
	}
}

type full struct{}

func (full) Write(b []byte) (int, error) { return 0, io.ErrShortWrite }

func pad32(b []byte) []byte { return append(append([]byte{}, b...), make([]byte, 32-len(b))...) }

// objects: the groups and the suite describe themselves rightly and give fresh neutral objects.
func objects(c *mon.Ctx) {
	s := root.NewBLS12381Suite()
	for i, x := range []struct {
		g     kyber.Group
		n     int
		name  string
		prime bool
	}{{root.NewGroupG1(), 48, "G1", true}, {root.NewGroupG2(), 96, "G2", false}, {root.NewGroupGT(), 576, "GT", false}, {s.G1(), 48, "G1", true}, {s.G2(), 96, "G2", false}, {s.GT(), 576, "GT", false}} {
		if x.g.PointLen() != x.n || x.g.Point().MarshalSize() != x.n || x.g.ScalarLen() != 32 || !strings.HasSuffix(x.g.String(), x.name) {
			c.Failf("group %s: %s, points of %d, scalars of %d bytes", x.name, x.g, x.g.PointLen(), x.g.ScalarLen())
		}
		p, q := x.g.Point(), x.g.Point()
		if _, ok := p.(root.GroupChecker); i%3 < 2 && !ok {
			c.Failf("points of %s do not check their group", x.name)
		}
		pb, err := p.MarshalBinary()
		nb, _ := p.Null().MarshalBinary()
		if err != nil || !bytes.Equal(pb, nb) || len(pb) != x.n || !p.Equal(q) {
			c.Failf("a new point of %s is %x, the identity %x (%v)", x.name, pb, nb, err)
		}
		// scalars are numbers modulo the order
		k, l := c.Big(bl.R), c.Big(bl.R)
		sum := new(big.Int).Add(k, l)
		prod := new(big.Int).Mul(k, l)
		a, b := x.g.Scalar(), x.g.Scalar()
		zero, _ := a.MarshalBinary()
		c.Eq("new scalar", zero, make([]byte, 32))
		a.SetBytes(mon.B32(k, 32))
		b.SetBytes(mon.B32(l, 32))
		sb, _ := x.g.Scalar().Add(a, b).MarshalBinary()
		mb, _ := x.g.Scalar().Mul(a, b).MarshalBinary()
		c.Eq("sum of scalars", sb, mon.B32(sum.Mod(sum, bl.R), 32))
		c.Eq("product of scalars", mb, mon.B32(prod.Mod(prod, bl.R), 32))
		wide := c.Bytes(c.Intn(80))
		wb, _ := root.NewScalar(wide).MarshalBinary()
		c.Eq("scalar of any bytes", wb, mon.B32(new(big.Int).Mod(new(big.Int).SetBytes(wide), bl.R), 32))
		c.Seen("objects", mon.B32(k, 32), mon.B32(l, 32), i)
	}
}

func (s *suite[F, P]) groups() []mon.Group {
	n := s.name
	f := 1
	if n == "G2" {
		f = 2
	}
	return []mon.Group{
		{Name: n + " arithmetic", Quick: 6000 / f, Thorough: 300000 / f, Classes: []string{n + "/Add", n + "/equal operands", n + "/opposite operands", n + "/identity operand", "coordinates/projective"}, Fn: s.arithmetic},
		{Name: n + " multiplication", Quick: 3000 / f / f, Thorough: 120000 / f, Classes: []string{n + "/MulScalar", n + "/subgroup false", n + "/subgroup true"}, Fn: s.multiply},
		{Name: n + " multiexp", Quick: 120 / f, Thorough: 4000 / f, Classes: []string{n + "/MultiExp", n + "/long power"}, Fn: s.multiExp},
		{Name: n + " encodings", Quick: 2400 / f / f, Thorough: 120000 / f, Classes: []string{n + "/encoded", n + "/FromCompressed", n + "/FromUncompressed", n + "/FromBytes", n + "/compressed refused", n + "/uncompressed refused", n + "/raw refused"}, Fn: s.encodings},
		{Name: n + " wrapper", Quick: 600 / f, Thorough: 30000 / f, Classes: []string{n + "/wrapper Mul", n + "/Pick"}, Fn: s.wrapper},
	}
}

func main() {
	s1 := &suite[bl.Fp, bls.PointG1]{name: "G1", c: bl.G1, clear: bl.Clear1, off: bl.Off1, g: func() group[*bls.PointG1] { return bls.NewG1() }, kp: func() kyber.Point { return root.NullOwcryptG1() }}
	s2 := &suite[bl.Fp2, bls.PointG2]{name: "G2", c: bl.G2, clear: bl.Clear2, off: bl.Off2, g: func() group[*bls.PointG2] { return bls.NewG2(nil) }, kp: func() kyber.Point { return root.NullOwcryptG2() }}
	gs := append(s1.groups(), s2.groups()...)
	types := []uint32{oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG}
	gs = append(gs, mon.Group{Name: "objects", Quick: 300, Thorough: 20000, Classes: []string{"objects"}, Fn: objects})
	gs = append(gs, mon.Group{Name: "base point", Quick: 1500, Thorough: 100000, Classes: []string{"base/sum", "base/infinity", "base/refused", "base/multiple"}, Fn: func(c *mon.Ctx) {
		k := scalar(c)
		if k.BitLen() > 256 {
			k = c.Big(bl.R)
		}
		kb := mon.B32(k, 32)
		typ := types[c.I%2]
		legal := k.Cmp(bl.R) < 0
		p := s1.point(c, false)
		if c.Intn(5) == 0 {
			p = bl.G1.Neg(bl.G1.MulG(k))
		} else if c.Intn(5) == 0 {
			p = bl.G1.MulG(k)
		}
		b := bl.G1.Comp(p)
		ok := true
		switch c.Intn(6) {
		case 0:
			b[c.Intn(48)] ^= 1 << uint(c.Intn(8))
			p, ok = bl.G1.FromComp(b)
			ok = ok && bl.G1.In(p)
		case 1:
			b = bl.G1.Comp(s1.curvePoint(c))
			p, ok = bl.G1.FromComp(b)
			ok = ok && bl.G1.In(p)
		case 2:
			b, ok = c.Bytes(c.Intn(100)), false
			if len(b) == 48 {
				b = b[:47]
			}
		}
		got, inf := oc.Point_mulBaseG_add(b, kb, typ)
		sum := bl.G1.Add(p, bl.G1.MulG(k))
		switch {
		case !ok || !legal:
			if got != nil || inf {
				c.Failf("%x G + %x: %x %v for illegal operands", kb, b, got, inf)
			}
			c.Seen("base/refused", kb, b)
		case sum.Inf:
			if got != nil || !inf {
				c.Failf("%x G + %x: %x %v, is infinity", kb, b, got, inf)
			}
			c.Seen("base/infinity", kb, b)
		default:
			if inf {
				c.Failf("%x G + %x: infinity", kb, b)
			}
			c.Eq(fmt.Sprintf("%x G + %x", kb, b), got, bl.G1.Comp(sum))
			c.Seen("base/sum", kb, b)
		}
		got = oc.Point_mulBaseG(kb, typ)
		if !legal {
			if got != nil {
				c.Failf("Point_mulBaseG of %x: %x", kb, got)
			}
			return
		}
		if k.Sign() != 0 {
			c.Eq("Point_mulBaseG", got, bl.G1.Comp(bl.G1.MulG(k)))
			c.Seen("base/multiple", kb)
		} else if got != nil {
			c.Eq("Point_mulBaseG of zero", got, bl.G1.Comp(bl.P1{Inf: true}))
		}
		for _, l := range []int{0, 31, 33} {
			if got := oc.Point_mulBaseG(make([]byte, l), typ); got != nil {
				c.Failf("Point_mulBaseG of %d bytes: %x", l, got)
			}
		}
	}})
	mon.Main("C17", gs)
}
