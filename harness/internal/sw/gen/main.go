// Searches private keys whose public keys have coordinates with leading zero bytes:  go run ./internal/sw/gen > special.txt
package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"runtime"
	"sync"

	"owverif/internal/ref"
)

const B = 512

func main() {
	blocks := 65536
	if len(os.Args) > 1 {
		fmt.Sscan(os.Args[1], &blocks)
	}
	for _, c := range []*ref.Curve{ref.K1, ref.R1, ref.SM2, ref.Pallas} {
		T := make([]ref.Pt, B)
		g := c.G
		for i := range T {
			T[i] = g
			g = c.Add(g, c.G)
		}
		var mu sync.Mutex
		var wg sync.WaitGroup
		found := [2][40]int{}
		top := 256
		if c == ref.Pallas {
			top = 255
		}
		lim := uint(top+7) / 8 * 8
		next := 0
		for w := 0; w < runtime.NumCPU(); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				den := make([]*big.Int, B)
				pre := make([]*big.Int, B)
				for i := range den {
					den[i], pre[i] = new(big.Int), new(big.Int)
				}
				t, l, x, y := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
				for {
					mu.Lock()
					k := next
					next++
					mu.Unlock()
					if k >= blocks {
						return
					}
					h := sha256.Sum256([]byte(fmt.Sprintf("%s %d", c.Name, k)))
					d0 := new(big.Int).SetBytes(h[:])
					d0.Mod(d0, c.N)
					C := c.MulG(d0)
					acc := big.NewInt(1)
					for i := range T {
						den[i].Sub(T[i].X, C.X)
						pre[i].Set(acc)
						acc = new(big.Int).Mul(acc, den[i])
						acc.Mod(acc, c.P)
					}
					inv := new(big.Int).ModInverse(acc, c.P)
					for i := B - 1; i >= 0; i-- {
						t.Mul(inv, pre[i])
						t.Mod(t, c.P) // 1/den
						inv.Mul(inv, den[i])
						inv.Mod(inv, c.P)
						for s := 0; s < 2; s++ {
							if s == 0 {
								l.Sub(T[i].Y, C.Y)
							} else {
								l.Add(T[i].Y, C.Y)
								l.Neg(l)
							}
							l.Mul(l, t)
							l.Mod(l, c.P)
							x.Mul(l, l)
							x.Sub(x, C.X)
							x.Sub(x, T[i].X)
							x.Mod(x, c.P)
							y.Sub(C.X, x)
							y.Mul(y, l)
							y.Sub(y, C.Y)
							y.Mod(y, c.P)
							for j, v := range []*big.Int{x, y} {
								z := int(lim-uint(v.BitLen())) / 8
								if z < 2 {
									continue
								}
								mu.Lock()
								if found[j][z] < 6 {
									found[j][z]++
									d := big.NewInt(int64(i + 1))
									if s == 1 {
										d.Neg(d)
									}
									d.Add(d, d0)
									d.Mod(d, c.N)
									p := c.MulG(d)
									if []*big.Int{p.X, p.Y}[j].Cmp(v) != 0 {
										panic("wrong")
									}
									fmt.Printf("%s %c %d %064x\n", c.Name, "xy"[j], z, d)
								}
								mu.Unlock()
							}
						}
					}
				}
			}()
		}
		wg.Wait()
	}
}
