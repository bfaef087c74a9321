package bl

import (
	"math/big"

	"owverif/internal/mon"
)

// Special is a field element whose plain or internal form consists of words of special shapes:
// zero, all ones, single bits, words of the prime, close to these.
func Special(c *mon.Ctx) Fp {
	for {
		var w Fp
		few := c.Intn(3) == 0
		for i := range w {
			k := c.Intn(10)
			if few && c.Intn(3) > 0 {
				k = 0
			}
			switch k {
			case 0:
			case 1:
				w[i] = ^uint64(0)
			case 2:
				w[i] = uint64(c.Intn(4))
			case 3:
				w[i] = ^uint64(c.Intn(4))
			case 4:
				w[i] = 1 << uint(c.Intn(64))
			case 5:
				w[i] = ^(uint64(1) << uint(c.Intn(64)))
			case 6:
				w[i] = pw[i] + uint64(c.Intn(3)) - 1
			case 7:
				w[i] = ^uint64(0) << uint(c.Intn(64))
			default:
				w[i] = c.U64()
			}
		}
		if c.Intn(8) > 0 && w[5] > pw[5] {
			w[5] %= pw[5] + 1
		}
		v := new(big.Int)
		for i := 5; i >= 0; i-- {
			v.Lsh(v, 64).Or(v, new(big.Int).SetUint64(w[i]))
		}
		if v.Cmp(P) >= 0 {
			continue
		}
		if c.Intn(3) == 0 {
			return FpInt(v)
		}
		return w
	}
}
