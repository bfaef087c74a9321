package bl

import (
	"fmt"
	"math/big"
	"sync"
)

// The tags of the two schemes.
const (
	NUL = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_"
	AUG = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"
)

// SignPoint is the signature of a message by a key, in the basic or augmented scheme.
func SignPoint(k *big.Int, pub, msg []byte, aug bool) P2 {
	if aug {
		return G2.Mul(Hash2(append(append([]byte{}, pub...), msg...), []byte(AUG)), k)
	}
	return G2.Mul(Hash2(msg, []byte(NUL)), k)
}

// The small primes that divide the cofactors.
var (
	Small1 = []int64{3, 11, 10177, 859267, 52437899}
	Small2 = []int64{13, 23, 2713, 11953, 262069}
)

var (
	smallMu sync.Mutex
	small   = map[string]interface{}{}
)

// ofOrder is a point of the curve of the prime order l, which divides the cofactor.
func ofOrder[F field[F]](c *Curve[F], name string, l int64, at func(v int64) F) Pt[F] {
	smallMu.Lock()
	defer smallMu.Unlock()
	key := fmt.Sprint(name, l)
	if p, ok := small[key]; ok {
		return p.(Pt[F])
	}
	L := big.NewInt(l)
	h := new(big.Int).Mul(c.H, R)
	for new(big.Int).Mod(h, L).Sign() == 0 {
		h.Div(h, L)
	}
	for v := l % 97; ; v++ {
		p, ok := c.Lift(at(v), v%2 == 0)
		if !ok {
			continue
		}
		for t := c.Mul(p, h); !t.Inf; {
			u := c.Mul(t, L)
			if u.Inf {
				small[key] = t
				return t
			}
			t = u
		}
	}
}

func at1(v int64) Fp  { return FpInt(big.NewInt(v)) }
func at2(v int64) Fp2 { return Fp2{FpInt(big.NewInt(v)), FpInt(big.NewInt(v * v))} }

func off[F field[F]](c *Curve[F], name string, i int, primes []int64, at func(v int64) F) Pt[F] {
	if i%3 == 0 {
		l := primes[i/3%len(primes)]
		return c.Mul(ofOrder(c, name, l, at), big.NewInt(1+int64(i%7)%(l-1)))
	}
	for v := int64(i + 1); ; v++ {
		if p, ok := c.Lift(at(v), v%2 == 0); ok {
			if q := c.Mul(p, R); !q.Inf {
				return q
			}
		}
	}
}

// Off1 is a point of the curve outside of the subgroup, of an order that divides the cofactor; i chooses.
func Off1(i int) P1 { return off(G1, "G1", i, Small1, at1) }

// Off2 is the same for the second curve.
func Off2(i int) P2 { return off(G2, "G2", i, Small2, at2) }
