package ref

import (
	"crypto/elliptic"
	"math/big"
	"testing"
)

func TestCurves(t *testing.T) {
	k := hx("123456789abcdef123456789abcdef0011223344556677889900aabbccddeeff")
	x, y := elliptic.P256().ScalarBaseMult(k.Bytes())
	if !R1.MulG(k).Eq(Pt{x, y}) || !R1.Mul(R1.G, k).Eq(Pt{x, y}) {
		t.Fatal("r1")
	}
	for _, c := range []*Curve{K1, R1, SM2, Pallas} {
		p := c.MulG(k)
		if !c.On(p) || !p.Eq(c.Mul(c.G, k)) || !c.Add(p, c.Neg(p)).Inf() {
			t.Fatal(c.Name)
		}
		if q, ok := c.Lift(p.X, p.Y.Bit(0)); !ok || !q.Eq(p) {
			t.Fatal("lift")
		}
	}
	_ = big.NewInt
}
