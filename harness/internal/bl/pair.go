package bl

import "math/big"

// Fp12 is a polynomial in w with w^12 = 2w^6 - 2; u is w^6 - 1.
type Fp12 [12]Fp

// One12 is one.
func One12() (o Fp12) { o[0] = fp1; return }

func (a Fp12) Add(b Fp12) Fp12 {
	for i := range a {
		a[i] = a[i].Add(b[i])
	}
	return a
}

func (a Fp12) Sub(b Fp12) Fp12 {
	for i := range a {
		a[i] = a[i].Sub(b[i])
	}
	return a
}

func (a Fp12) Mul(b Fp12) (o Fp12) {
	var t [23]Fp
	for i := range a {
		if a[i].IsZero() {
			continue
		}
		for j := range b {
			t[i+j] = t[i+j].Add(a[i].Mul(b[j]))
		}
	}
	for i := 22; i >= 12; i-- {
		d := t[i].Add(t[i])
		t[i-6] = t[i-6].Add(d)
		t[i-12] = t[i-12].Sub(d)
	}
	copy(o[:], t[:12])
	return
}

func (a Fp12) Exp(e *big.Int) Fp12 {
	r := One12()
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.Mul(r)
		if e.Bit(i) == 1 {
			r = r.Mul(a)
		}
	}
	return r
}

var (
	p12 = new(big.Int).Exp(P, big.NewInt(12), nil)
	inv = new(big.Int).Sub(p12, big.NewInt(2))
	fin = new(big.Int).Div(new(big.Int).Sub(p12, big.NewInt(1)), R)
)

// Inv is by Fermat.
func (a Fp12) Inv() Fp12 { return a.Exp(inv) }

// emb places (a + bu) w^k.
func emb(o *Fp12, c Fp2, k int) {
	o[k] = o[k].Add(c.A).Sub(c.B)
	o[(k+6)%12] = o[(k+6)%12].Add(c.B)
}

// FromTower makes the element of the tower whose coefficient of v^j w^i is c[i][j].
func FromTower(c [2][3]Fp2) (o Fp12) {
	for i := range c {
		for j := range c[i] {
			emb(&o, c[i][j], 2*j+i)
		}
	}
	return
}

// Tower is the inverse of FromTower.
func (a Fp12) Tower() (c [2][3]Fp2) {
	for i := range c {
		for j := range c[i] {
			k := 2*j + i
			c[i][j] = Fp2{a[k].Add(a[k+6]), a[k+6]}
		}
	}
	return
}

// Bytes is the 576 byte form: highest coefficients first.
func (a Fp12) Bytes() (o []byte) {
	c := a.Tower()
	for i := 1; i >= 0; i-- {
		for j := 2; j >= 0; j-- {
			o = append(o, c[i][j].Bytes()...)
		}
	}
	return
}

// FromBytes reads what Bytes writes.
func FromBytes(b []byte) (o Fp12, ok bool) {
	if len(b) != 576 {
		return
	}
	var c [2][3]Fp2
	for i := 1; i >= 0; i-- {
		for j := 2; j >= 0; j-- {
			if c[i][j], ok = G2.Parse(b[:96]); !ok {
				return
			}
			b = b[96:]
		}
	}
	return FromTower(c), true
}

// line is the line through t with slope l (on the twist), at p, up to a factor that the final exponentiation removes.
func line(t P2, l Fp2, p P1) (o Fp12) {
	emb(&o, l.Mul(t.X).Sub(t.Y), 0)
	emb(&o, l.Mul(Fp2{A: p.X}).Neg(), 2)
	emb(&o, Fp2{A: p.Y}, 3)
	return
}

// Miller is the ate Miller function of the absolute value of the curve's parameter.
func Miller(p P1, q P2) Fp12 {
	if p.Inf || q.Inf {
		return One12()
	}
	f, t := One12(), q
	for i := abs.BitLen() - 2; i >= 0; i-- {
		x2 := t.X.Mul(t.X)
		l := x2.Add(x2).Add(x2).Mul(t.Y.Add(t.Y).Inv())
		f = f.Mul(f).Mul(line(t, l, p))
		t = G2.Add(t, t)
		if abs.Bit(i) == 1 {
			l = q.Y.Sub(t.Y).Mul(q.X.Sub(t.X).Inv())
			f = f.Mul(line(t, l, p))
			t = G2.Add(t, q)
		}
	}
	return f
}

// Final is the final exponentiation and the inversion that the negative parameter asks for. The
// exponent is three times (p^12-1)/r, as in the implementations with the addition chain of
// Hayashida, Hayasaka and Teruya.
func Final(f Fp12) Fp12 { return f.Exp(fin).Exp(new(big.Int).Sub(R, big.NewInt(3))) }

// Pair is the reduced ate pairing of points of the subgroups.
func Pair(p P1, q P2) Fp12 { return Final(Miller(p, q)) }
