// Package sw has what the checks of the short-Weierstrass schemes share.
package sw

import (
	"math/big"
	"sync"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

var mu sync.Mutex

// Cv is a curve with its type code.
type Cv struct {
	*ref.Curve
	T uint32
}

// The curves.
var (
	K1     = Cv{ref.K1, oc.ECC_CURVE_SECP256K1}
	R1     = Cv{ref.R1, oc.ECC_CURVE_SECP256R1}
	SM2    = Cv{ref.SM2, oc.ECC_CURVE_SM2_STANDARD}
	Pasta  = Cv{ref.Pallas, oc.ECC_CURVE_PASTA}
	ECDSA  = []Cv{K1, R1}
	Prime  = []Cv{K1, R1, SM2}
	All    = []Cv{K1, R1, SM2, Pasta}
	One    = big.NewInt(1)
	Two256 = new(big.Int).Lsh(One, 256)
	// SM2Id is the standard's default identity.
	SM2Id = []byte("1234567812345678")
)

// B32 is the 32 byte form.
func B32(v *big.Int) []byte { return mon.B32(v, 32) }

// Int reads bytes.
func Int(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

// Key returns a private key for the case, as number, bytes and public key point.
func (cv Cv) Key(c *mon.Ctx) (*big.Int, []byte, ref.Pt) {
	n := cv.N
	if cv.T == oc.ECC_CURVE_SM2_STANDARD {
		n = new(big.Int).Sub(n, One) // [1, n-2]
	}
	if cv.T == oc.ECC_CURVE_PASTA {
		n = new(big.Int).Lsh(One, 254)
	}
	if c.Intn(9) == 0 {
		d, q := cv.SpecialKey(c)
		return d, B32(d), q
	}
	d := c.Scalar(n)
	return d, B32(d), cv.MulG(d)
}

// Point returns a random point, sometimes a special one: of small order of magnitude in x, G, -G, small multiples.
func (cv Cv) Point(c *mon.Ctx) ref.Pt {
	switch c.Intn(12) {
	case 5:
		return cv.WordsX(c)
	case 6:
		if c.Intn(4) == 0 {
			return cv.WordsY(c)
		}
		return cv.WordsX(c)
	case 8:
		return cv.SpecialY(c)
	case 9:
		_, q := cv.SpecialKey(c)
		return q
	case 0:
		return cv.G
	case 1:
		return cv.MulG(new(big.Int).Sub(cv.N, big.NewInt(int64(1+c.Intn(4)))))
	case 2:
		return cv.MulG(big.NewInt(int64(1 + c.Intn(40))))
	case 3, 4:
		return cv.LiftNear(c, c.SmallX(cv.P))
	}
	return cv.LiftNear(c, c.Big(cv.P))
}

// LiftNear returns the point of the first x at or after the given one.
func (cv Cv) LiftNear(c *mon.Ctx, x *big.Int) ref.Pt {
	x = new(big.Int).Set(x)
	for {
		if x.Cmp(cv.P) >= 0 {
			x.SetInt64(0)
		}
		if p, ok := cv.Lift(x, uint(c.Intn(2))); ok {
			return p
		}
		x.Add(x, One)
	}
}

// Hash returns a 32 byte message hash: random, or near 0, n and 2^256.
func (cv Cv) Hash(c *mon.Ctx) []byte {
	switch c.Intn(10) {
	case 0:
		return B32(big.NewInt(int64(c.Intn(3))))
	case 1:
		v := new(big.Int).Sub(Two256, big.NewInt(int64(1+c.Intn(3))))
		return B32(v)
	case 2:
		v := new(big.Int).Add(cv.N, big.NewInt(int64(c.Intn(5)-2)))
		return B32(v)
	case 3:
		return B32(c.Scalar0(cv.N))
	}
	return c.Bytes(32)
}

// Canonical is the documented form of r and s.
func Canonical(b []byte) bool {
	return b[0]&0x80 == 0 && !(b[0] == 0 && b[1]&0x80 == 0)
}

// Mutate returns a changed copy of b: a bit flipped, a byte changed, cut, grown, swapped halves.
func Mutate(c *mon.Ctx, b []byte) []byte {
	o := append([]byte{}, b...)
	for {
		switch c.Intn(9) {
		case 0, 1, 2, 3:
			if len(o) > 0 {
				k := c.Intn(len(o) * 8)
				o[k/8] ^= 1 << uint(k%8)
			}
		case 4:
			if len(o) > 0 {
				o[c.Intn(len(o))] = byte(c.Intn(256))
			}
		case 5:
			o = o[:c.Intn(len(o)+1)]
		case 6:
			o = append(o, c.Bytes(1+c.Intn(3))...)
		case 7:
			if len(o) > 1 {
				h := len(o) / 2
				o = append(append([]byte{}, o[h:]...), o[:h]...)
			}
		case 8:
			if len(o) > 0 {
				k := c.Intn(len(o))
				for i := k; i < len(o) && i < k+c.Intn(32); i++ {
					o[i] = byte(c.Intn(2) * 255)
				}
			}
		}
		if string(o) != string(b) {
			return o
		}
	}
}

// Cat joins byte strings.
func Cat(bs ...[]byte) (o []byte) {
	for _, b := range bs {
		o = append(o, b...)
	}
	return
}
