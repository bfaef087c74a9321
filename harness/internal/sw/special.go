package sw

import (
	"math/big"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

type specialKey struct {
	d *big.Int
	q ref.Pt
}

var special = map[string][]specialKey{}
var specialY = map[string][]ref.Pt{}

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

func init() {
	for _, p := range yPoints {
		specialY[p[0]] = append(specialY[p[0]], ref.Pt{X: hx(p[1]), Y: hx(p[2])})
	}
	for _, k := range keys {
		special[k[0]] = append(special[k[0]], specialKey{d: hx(k[1])})
	}
}

// SpecialKey is a private key whose public key has a coordinate with leading zero bytes.
func (cv Cv) SpecialKey(c *mon.Ctx) (*big.Int, ref.Pt) {
	ks := special[cv.Name]
	if len(ks) == 0 {
		d := big.NewInt(1)
		return d, cv.MulG(d)
	}
	k := &ks[c.Intn(len(ks))]
	mu.Lock()
	if k.q.Inf() {
		k.q = cv.MulG(k.d)
	}
	q := k.q
	mu.Unlock()
	d := new(big.Int).Set(k.d)
	if c.Intn(4) == 0 && cv.Name != ref.SM2.Name && cv.Name != ref.Pallas.Name {
		return d.Sub(cv.N, d), cv.Neg(q)
	}
	return d, q
}

// SpecialY is a point with a y coordinate of a special shape, or its opposite.
func (cv Cv) SpecialY(c *mon.Ctx) ref.Pt {
	ps := specialY[cv.Name]
	p := ps[c.Intn(len(ps))]
	if c.Intn(3) == 0 {
		return cv.Neg(p)
	}
	return p
}

// Scalar is a scalar in [1,n-1], sometimes one whose multiple of G has leading zero bytes.
func (cv Cv) Scalar(c *mon.Ctx) *big.Int {
	if c.Intn(12) == 0 {
		d, _ := cv.SpecialKey(c)
		return d
	}
	return c.Scalar(cv.N)
}
