package bl

import "math/big"

type field[F any] interface {
	comparable
	Add(F) F
	Sub(F) F
	Neg() F
	Mul(F) F
	Inv() F
	IsZero() bool
	One() F
	Sqrt() (F, bool)
	Large() bool
	Sgn0() uint
	Bytes() []byte
}

// Pt is an affine point; the zero value of both coordinates with Inf set is the identity.
type Pt[F field[F]] struct {
	X, Y F
	Inf  bool
}

// Curve is y^2 = x^3 + B over a field.
type Curve[F field[F]] struct {
	B   F
	G   Pt[F]
	Len int // of a coordinate
	H   *big.Int
	tab []Pt[F]
}

type (
	P1 = Pt[Fp]
	P2 = Pt[Fp2]
)

func fph(s string) Fp { return FpInt(hx(s)) }

// The groups.
var (
	G1 *Curve[Fp]
	G2 *Curve[Fp2]
)

func init() {
	G1, G2 = func() (*Curve[Fp], *Curve[Fp2]) {
		g := &Curve[Fp]{B: FpInt(big.NewInt(4)), Len: 48, H: hx("396c8c005555e1568c00aaab0000aaab"), G: P1{
			X: fph("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
			Y: fph("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")}}
		h := &Curve[Fp2]{B: Fp2{FpInt(big.NewInt(4)), FpInt(big.NewInt(4))}, Len: 96,
			H: hx("5d543a95414e7f1091d50792876a202cd91de4547085abaa68a205b2e5a7ddfa628f1cb4d9e82ef21537e293a6691ae1616ec6e786f0c70cf1c38e31c7238e5"), G: P2{
				X: Fp2{fph("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"),
					fph("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
				Y: Fp2{fph("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"),
					fph("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}}}
		if !g.On(g.G) || !h.On(h.G) || !g.Mul(g.G, R).Inf || !h.Mul(h.G, R).Inf {
			panic("BLS12-381 generators")
		}
		g.table()
		h.table()
		return g, h
	}()
}

func (c *Curve[F]) table() {
	for p, i := c.G, 0; i < 256; i++ {
		c.tab = append(c.tab, p)
		p = c.Add(p, p)
	}
}

// Rhs is x^3 + B.
func (c *Curve[F]) Rhs(x F) F { return x.Mul(x).Mul(x).Add(c.B) }

// On reports whether an affine point satisfies the equation (the identity does).
func (c *Curve[F]) On(p Pt[F]) bool { return p.Inf || p.Y.Mul(p.Y) == c.Rhs(p.X) }

// Neg is the opposite.
func (c *Curve[F]) Neg(p Pt[F]) Pt[F] {
	if !p.Inf {
		p.Y = p.Y.Neg()
	}
	return p
}

// Add is the chord and tangent rule.
func (c *Curve[F]) Add(p, q Pt[F]) Pt[F] {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	var l F
	if p.X == q.X {
		if p.Y != q.Y || p.Y.IsZero() {
			return Pt[F]{Inf: true}
		}
		x2 := p.X.Mul(p.X)
		l = x2.Add(x2).Add(x2).Mul(p.Y.Add(p.Y).Inv())
	} else {
		l = q.Y.Sub(p.Y).Mul(q.X.Sub(p.X).Inv())
	}
	x := l.Mul(l).Sub(p.X).Sub(q.X)
	return Pt[F]{X: x, Y: l.Mul(p.X.Sub(x)).Sub(p.Y)}
}

type jac[F field[F]] struct{ x, y, z F }

func (c *Curve[F]) jdbl(p jac[F]) jac[F] {
	if p.z.IsZero() || p.y.IsZero() {
		return jac[F]{}
	}
	yy := p.y.Mul(p.y)
	s := p.x.Mul(yy)
	s = s.Add(s)
	s = s.Add(s)
	m := p.x.Mul(p.x)
	m = m.Add(m).Add(m)
	x := m.Mul(m).Sub(s).Sub(s)
	y4 := yy.Mul(yy)
	y4 = y4.Add(y4)
	y4 = y4.Add(y4)
	y4 = y4.Add(y4)
	z := p.y.Mul(p.z)
	return jac[F]{x, m.Mul(s.Sub(x)).Sub(y4), z.Add(z)}
}

func (c *Curve[F]) jadd(p jac[F], q Pt[F]) jac[F] {
	if q.Inf {
		return p
	}
	if p.z.IsZero() {
		return jac[F]{q.X, q.Y, q.X.One()}
	}
	zz := p.z.Mul(p.z)
	u := q.X.Mul(zz)
	s := q.Y.Mul(zz).Mul(p.z)
	h := u.Sub(p.x)
	r := s.Sub(p.y)
	if h.IsZero() {
		if r.IsZero() {
			return c.jdbl(p)
		}
		return jac[F]{}
	}
	hh := h.Mul(h)
	h3 := hh.Mul(h)
	v := p.x.Mul(hh)
	x := r.Mul(r).Sub(h3).Sub(v).Sub(v)
	return jac[F]{x, r.Mul(v.Sub(x)).Sub(p.y.Mul(h3)), p.z.Mul(h)}
}

func (p jac[F]) affine() Pt[F] {
	if p.z.IsZero() {
		return Pt[F]{Inf: true}
	}
	i := p.z.Inv()
	ii := i.Mul(i)
	return Pt[F]{X: p.x.Mul(ii), Y: p.y.Mul(ii).Mul(i)}
}

// Mul multiplies by any integer, of whatever size.
func (c *Curve[F]) Mul(p Pt[F], k *big.Int) Pt[F] {
	if k.Sign() < 0 {
		return c.Mul(c.Neg(p), new(big.Int).Neg(k))
	}
	var a jac[F]
	for i := k.BitLen() - 1; i >= 0; i-- {
		a = c.jdbl(a)
		if k.Bit(i) == 1 {
			a = c.jadd(a, p)
		}
	}
	return a.affine()
}

// MulG multiplies the generator.
func (c *Curve[F]) MulG(k *big.Int) Pt[F] {
	k = new(big.Int).Mod(k, R)
	var a jac[F]
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			a = c.jadd(a, c.tab[i])
		}
	}
	return a.affine()
}

// In reports membership of the subgroup of prime order.
func (c *Curve[F]) In(p Pt[F]) bool { return c.On(p) && c.Mul(p, R).Inf }

// Lift returns the point of an x coordinate, with the larger y if large.
func (c *Curve[F]) Lift(x F, large bool) (Pt[F], bool) {
	y, ok := c.Rhs(x).Sqrt()
	if !ok {
		return Pt[F]{}, false
	}
	if y.Large() != large {
		y = y.Neg()
	}
	return Pt[F]{X: x, Y: y}, true
}

// Comp is the compressed form.
func (c *Curve[F]) Comp(p Pt[F]) []byte {
	o := make([]byte, c.Len)
	if p.Inf {
		o[0] = 0xc0
		return o
	}
	copy(o, p.X.Bytes())
	o[0] |= 0x80
	if p.Y.Large() {
		o[0] |= 0x20
	}
	return o
}

// Full is the uncompressed form.
func (c *Curve[F]) Full(p Pt[F]) []byte {
	o := c.Raw(p)
	if p.Inf {
		o[0] = 0x40
	}
	return o
}

// Raw is both coordinates, zeros for the identity.
func (c *Curve[F]) Raw(p Pt[F]) []byte {
	if p.Inf {
		return make([]byte, 2*c.Len)
	}
	return append(p.X.Bytes(), p.Y.Bytes()...)
}

// Parse reads a coordinate of reduced numbers.
func (c *Curve[F]) Parse(b []byte) (x F, ok bool) {
	switch d := any(&x).(type) {
	case *Fp:
		*d, ok = fpBytes(b)
	case *Fp2:
		var o1, o2 bool
		d.B, o1 = fpBytes(b[:48])
		d.A, o2 = fpBytes(b[48:])
		ok = o1 && o2
	}
	return
}

func fpBytes(b []byte) (Fp, bool) {
	v := new(big.Int).SetBytes(b)
	return FpInt(v), v.Cmp(P) < 0
}

// FromComp decodes a compressed point of the curve, in the subgroup or not.
func (c *Curve[F]) FromComp(b []byte) (p Pt[F], ok bool) {
	if len(b) != c.Len || b[0]&0x80 == 0 {
		return
	}
	t := append([]byte{}, b...)
	t[0] &= 0x1f
	if b[0]&0x40 != 0 {
		for _, v := range t {
			ok = ok || v != 0
		}
		return Pt[F]{Inf: true}, !ok && b[0] == 0xc0
	}
	x, ok := c.Parse(t)
	if !ok {
		return p, false
	}
	return c.Lift(x, b[0]&0x20 != 0)
}

// FromFull decodes an uncompressed point of the curve, in the subgroup or not.
func (c *Curve[F]) FromFull(b []byte) (p Pt[F], ok bool) {
	if len(b) != 2*c.Len || b[0]&0xa0 != 0 {
		return
	}
	if b[0]&0x40 != 0 {
		for i, v := range b {
			ok = ok || i > 0 && v != 0
		}
		return Pt[F]{Inf: true}, !ok && b[0] == 0x40
	}
	p, ok = c.FromRaw(b)
	return p, ok && !p.Inf
}

// FromRaw decodes two coordinates.
func (c *Curve[F]) FromRaw(b []byte) (p Pt[F], ok bool) {
	if len(b) != 2*c.Len {
		return
	}
	x, o1 := c.Parse(b[:c.Len])
	y, o2 := c.Parse(b[c.Len:])
	if !o1 || !o2 {
		return
	}
	p = Pt[F]{X: x, Y: y}
	if x.IsZero() && y.IsZero() {
		return Pt[F]{Inf: true}, true
	}
	return p, c.On(p)
}
