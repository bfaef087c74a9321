package ref

import (
	"math/big"
	"testing"
)

func TestLiftY(t *testing.T) {
	for _, c := range []*Curve{K1, R1, SM2, Pallas} {
		n := 0
		for y := int64(0); y < 60; y++ {
			for _, p := range c.LiftY(big.NewInt(y)) {
				n++
				if !c.On(p) {
					t.Fatal(c.Name, y, p)
				}
			}
		}
		if n < 30 {
			t.Fatal(c.Name, n)
		}
		g := c.LiftY(c.G.Y)
		ok := false
		for _, p := range g {
			ok = ok || p.Eq(c.G)
		}
		if !ok {
			t.Fatal(c.Name, "G")
		}
		t.Log(c.Name, n)
	}
}
func BenchmarkLiftY(b *testing.B) {
	for i := 0; i < b.N; i++ {
		R1.LiftY(big.NewInt(int64(i)))
	}
}
