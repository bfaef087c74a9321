package ref

import "math/big"

// LiftY returns the points with the given y: the roots of x^3 + ax + (b - y^2), by splitting gcd(x^p - x, cubic).
func (c *Curve) LiftY(y *big.Int) []Pt {
	p := c.P
	mod := func(v *big.Int) *big.Int { return v.Mod(v, p) }
	d := mod(new(big.Int).Sub(c.B, new(big.Int).Mul(y, y)))
	f := []*big.Int{d, mod(new(big.Int).Set(c.A)), new(big.Int), big.NewInt(1)}
	trim := func(a []*big.Int) []*big.Int {
		for len(a) > 0 && a[len(a)-1].Sign() == 0 {
			a = a[:len(a)-1]
		}
		return a
	}
	rem := func(a, m []*big.Int) (r []*big.Int) { // m is not zero
		for _, v := range a {
			r = append(r, new(big.Int).Set(v))
		}
		r = trim(r)
		inv := new(big.Int).ModInverse(m[len(m)-1], p)
		for len(r) >= len(m) {
			q := mod(new(big.Int).Mul(r[len(r)-1], inv))
			o := len(r) - len(m)
			for i := range m {
				r[o+i] = mod(new(big.Int).Sub(r[o+i], new(big.Int).Mul(q, m[i])))
			}
			r = trim(r)
		}
		return r
	}
	mul := func(a, b, m []*big.Int) []*big.Int {
		if len(a) == 0 || len(b) == 0 {
			return nil
		}
		r := make([]*big.Int, len(a)+len(b)-1)
		for i := range r {
			r[i] = new(big.Int)
		}
		for i := range a {
			for j := range b {
				r[i+j].Add(r[i+j], new(big.Int).Mul(a[i], b[j]))
			}
		}
		for i := range r {
			mod(r[i])
		}
		return rem(r, m)
	}
	pow := func(a []*big.Int, e *big.Int, m []*big.Int) []*big.Int {
		r := []*big.Int{big.NewInt(1)}
		for i := e.BitLen() - 1; i >= 0; i-- {
			r = mul(r, r, m)
			if e.Bit(i) == 1 {
				r = mul(r, a, m)
			}
		}
		return rem(r, m)
	}
	gcd := func(a, b []*big.Int) []*big.Int {
		for len(b) > 0 {
			a, b = b, rem(a, b)
		}
		return a
	}
	minus := func(a []*big.Int, k int) []*big.Int { // a - x^k
		r := []*big.Int{}
		for i := 0; i < len(a) || i <= k; i++ {
			v := new(big.Int)
			if i < len(a) {
				v.Set(a[i])
			}
			if i == k {
				v.Sub(v, big.NewInt(1))
			}
			r = append(r, mod(v))
		}
		return trim(r)
	}
	x := []*big.Int{new(big.Int), big.NewInt(1)}
	g := gcd(f, minus(pow(x, p, f), 1))
	half := new(big.Int).Rsh(p, 1)
	var out []Pt
	var split func(g []*big.Int, s int64)
	split = func(g []*big.Int, s int64) {
		switch len(g) {
		case 0, 1:
			return
		case 2:
			r := new(big.Int).ModInverse(g[1], p)
			r.Mul(r, g[0]).Neg(r)
			out = append(out, Pt{mod(r), new(big.Int).Set(y)})
			return
		}
		for ; ; s++ {
			h := gcd(g, minus(pow([]*big.Int{big.NewInt(s), big.NewInt(1)}, half, g), 0))
			if len(h) > 1 && len(h) < len(g) {
				split(h, s+1)
				// the other factor
				q, r := []*big.Int{}, g
				inv := new(big.Int).ModInverse(h[len(h)-1], p)
				r = append([]*big.Int{}, r...)
				q = make([]*big.Int, len(g)-len(h)+1)
				for i := range r {
					r[i] = new(big.Int).Set(r[i])
				}
				for i := len(q) - 1; i >= 0; i-- {
					q[i] = mod(new(big.Int).Mul(r[i+len(h)-1], inv))
					for j := range h {
						r[i+j] = mod(new(big.Int).Sub(r[i+j], new(big.Int).Mul(q[i], h[j])))
					}
				}
				split(trim(q), s+1)
				return
			}
		}
	}
	split(g, 1)
	return out
}
