package sw

import (
	"math/big"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

// Words is a field element whose plain or internal (Montgomery) form consists of words of special
// shapes: all zeros, all ones, single bits, close to these.  Carries and borrows that no random
// element causes happen on them.
func (cv Cv) Words(c *mon.Ctx) *big.Int {
	var widths []uint
	mont := uint(0)
	switch k := c.Intn(6); {
	case cv.Name == ref.SM2.Name && k < 4: // nine words of 29 and 28 bits, radix 2^257
		widths = []uint{29, 28, 29, 28, 29, 28, 29, 28, 29}
		mont = 257
	case k < 3:
		widths = []uint{64, 64, 64, 64}
		if c.Bool() {
			mont = 256
		}
	case k == 3:
		widths = []uint{32, 32, 32, 32, 32, 32, 32, 32}
	case k == 4:
		widths = []uint{52, 52, 52, 52, 48}
	default:
		widths = []uint{26, 26, 26, 26, 26, 26, 26, 26, 26, 22}
	}
	v, sh := new(big.Int), uint(0)
	few := c.Intn(3) == 0 // most words zero
	for _, w := range widths {
		m := uint64(1)<<(w-1)<<1 - 1
		var x uint64
		k := c.Intn(9)
		if few && c.Intn(3) > 0 {
			k = 0
		}
		switch k {
		case 0:
		case 1:
			x = m
		case 2:
			x = uint64(c.Intn(4))
		case 3:
			x = m - uint64(c.Intn(4))
		case 4:
			x = 1 << uint(c.Intn(int(w)))
		case 5:
			x = m ^ 1<<uint(c.Intn(int(w)))
		case 6:
			x = m &^ (1<<uint(c.Intn(int(w))) - 1)
		default:
			x = c.U64() & m
		}
		t := new(big.Int).SetUint64(x)
		v.Or(v, t.Lsh(t, sh))
		sh += w
	}
	if mont > 0 {
		r := new(big.Int).Lsh(One, mont)
		v.Mul(v, r.ModInverse(r, cv.P))
	}
	return v.Mod(v, cv.P)
}

// WordsX is a point whose x coordinate is of that kind, WordsY one whose y coordinate is.
func (cv Cv) WordsX(c *mon.Ctx) ref.Pt {
	for {
		if p, ok := cv.Lift(cv.Words(c), uint(c.Intn(2))); ok {
			return p
		}
	}
}

func (cv Cv) WordsY(c *mon.Ctx) ref.Pt {
	for {
		if ps := cv.LiftY(cv.Words(c)); len(ps) > 0 {
			return ps[c.Intn(len(ps))]
		}
	}
}

// WordsDiff is a point whose x coordinate differs from that of p by an element of that kind.
func (cv Cv) WordsDiff(c *mon.Ctx, p ref.Pt) ref.Pt {
	for {
		x := cv.Words(c)
		x.Add(x, p.X)
		if q, ok := cv.Lift(x.Mod(x, cv.P), uint(c.Intn(2))); ok {
			return q
		}
	}
}
