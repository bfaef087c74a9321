// Writes points with special y coordinates:  go run ./internal/sw/geny > internal/sw/ypoints.go
package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"owverif/internal/ref"
)

func main() {
	fmt.Println("package sw\n\n// yPoints are points with special y coordinates (made by geny): curve, x, y.\nvar yPoints = [][3]string{")
	for _, c := range []*ref.Curve{ref.K1, ref.R1, ref.SM2, ref.Pallas} {
		n := 0
		seen := map[string]bool{}
		emit := func(y *big.Int, lim int) bool {
			y = new(big.Int).Mod(y, c.P)
			ps := c.LiftY(y)
			if len(ps) > lim {
				ps = ps[:lim]
			}
			for _, p := range ps {
				k := p.X.String() + " " + y.String()
				if seen[k] {
					continue
				}
				seen[k] = true
				fmt.Printf("\t{%q, %q, %q},\n", c.Name, fmt.Sprintf("%x", p.X), fmt.Sprintf("%x", p.Y))
				n++
			}
			return len(ps) > 0
		}
		for i := int64(0); i < 12; i++ {
			emit(big.NewInt(i), 3)
		}
		h := func(s string) *big.Int {
			b := sha256.Sum256([]byte(s))
			return new(big.Int).SetBytes(b[:])
		}
		for z := 1; z < 32; z++ { // z leading zero bytes, z trailing zero bytes
			for t := 0; ; t++ {
				v := h(fmt.Sprint(c.Name, z, t))
				if emit(new(big.Int).Rsh(v, uint(8*z)), 1) {
					break
				}
			}
			if z%3 == 1 && z < 30 {
				for t := 0; ; t++ {
					v := h(fmt.Sprint("t", c.Name, z, t))
					v.Lsh(v, uint(8*z)).And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 254), big.NewInt(1)))
					if emit(v, 1) {
						break
					}
				}
			}
		}
		for _, k := range []uint{31, 32, 33, 63, 64, 65, 127, 128, 129, 191, 192, 193, 223, 224, 225, 251, 252, 253, 254} {
			emit(new(big.Int).Lsh(big.NewInt(1), k), 1)
			emit(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(1)), 1)
		}
	}
	fmt.Println("}")
}
