// C09: point compression and decompression.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/pasta"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

func decide(c *mon.Ctx, cv sw.Cv, b []byte, what string) {
	var want []byte
	if len(b) == 33 && (b[0] == 2 || b[0] == 3) {
		if p, ok := cv.Lift(sw.Int(b[1:]), uint(b[0]&1)); ok {
			want = append([]byte{4}, p.Enc()...)
		}
	}
	got := oc.PointDecompress(append([]byte{}, b...), cv.T)
	if string(got) != string(want) || (got == nil) != (want == nil) {
		c.Failf("%s, %s: decompressing %s gives %s, want %s", cv.Name, what, mon.Hex(b), mon.Hex(got), mon.Hex(want))
	}
	if want != nil {
		c.Seen(cv.Name+"/decompressed "+what, b)
		c.Eq("compressing it again", oc.PointCompress(got, cv.T), b)
		c.Eq("compressing it again without prefix", oc.PointCompress(got[1:], cv.T), b)
	} else {
		c.Seen(cv.Name+"/refused "+what, b)
	}
}

func main() {
	var groups []mon.Group
	for _, cv := range sw.All {
		cv := cv
		n := cv.Name
		groups = append(groups,
			mon.Group{Name: n + "-point", Quick: 3000, Thorough: 300000, Classes: []string{n + "/decompressed point"}, Fn: func(c *mon.Ctx) {
				p := cv.Point(c)
				if c.Intn(3) == 0 {
					p = cv.MulG(cv.Scalar(c))
				}
				for _, e := range [][]byte{p.Enc(), append([]byte{4}, p.Enc()...)} {
					c.Eq("compression", oc.PointCompress(e, cv.T), p.Enc33())
				}
				decide(c, cv, p.Enc33(), "point")
				decide(c, cv, cv.Neg(p).Enc33(), "point")
				c.Sample("%s point %x", n, p.Enc())
			}},
			mon.Group{Name: n + "-string", Quick: 4000, Thorough: 400000, Classes: []string{n + "/decompressed any x", n + "/refused any x", n + "/refused prefix", n + "/refused length", n + "/refused x above the prime", n + "/decompressed edge", n + "/refused edge"}, Fn: func(c *mon.Ctx) {
				two := byte(2 + c.Intn(2))
				decide(c, cv, append([]byte{two}, sw.B32(c.Big(cv.P))...), "any x")
				decide(c, cv, append([]byte{two}, c.Bytes(32)...), "any string")
				decide(c, cv, append([]byte{byte(c.I)}, sw.B32(cv.Point(c).X)...), "prefix")
				if c.I == 0 || c.Intn(20) == 0 {
					decide(c, cv, nil, "length")
				}
				decide(c, cv, append([]byte{two}, c.Bytes(c.Intn(70))...), "length")
				p := cv.Point(c)
				decide(c, cv, append(p.Enc33(), 0), "length")
				decide(c, cv, p.Enc33()[:32], "length")
				x := new(big.Int).Add(c.SmallX(cv.P), cv.P)
				if x.BitLen() <= 256 {
					decide(c, cv, append([]byte{two}, sw.B32(x)...), "x above the prime")
				}
				for _, e := range []*big.Int{big.NewInt(int64(c.Intn(300))), new(big.Int).Sub(cv.P, big.NewInt(int64(c.Intn(300)))), new(big.Int).Add(cv.P, big.NewInt(int64(c.Intn(100)))), new(big.Int).Sub(sw.Two256, big.NewInt(int64(1+c.Intn(300)))), c.SmallX(cv.P)} {
					if e.BitLen() <= 256 {
						decide(c, cv, append([]byte{two}, sw.B32(e)...), "edge")
					}
				}
			}},
			mon.Group{Name: n + "-compress", Quick: 500, Thorough: 20000, Classes: []string{n + "/compress refused"}, Fn: func(c *mon.Ctx) {
				l := c.Intn(140)
				b := c.Bytes(l)
				if l == 64 || l == 65 && b[0] == 4 {
					return
				}
				if got := oc.PointCompress(b, cv.T); got != nil {
					c.Failf("%s: compressing %s gives %s", n, mon.Hex(b), mon.Hex(got))
				}
				c.Seen(n+"/compress refused", b)
			}})
	}
	groups = append(groups, mon.Group{Name: "pasta-forms", Quick: 3000, Thorough: 300000, Classes: []string{"forms/compressed", "forms/read", "forms/refused"}, Fn: func(c *mon.Ctx) {
		// the point and compressed-point objects of the pasta package
		p := sw.Pasta.Point(c)
		var a, b pasta.Affine
		a.X, a.Y = ref.Limbs(p.X, ref.PP), ref.Limbs(p.Y, ref.PP)
		var x, y pasta.Compressed
		pasta.Compress(&x, a)
		c.Eq("compressed point of the pasta package", x.ToBigEndianBytes(), p.Enc33())
		if !pasta.Decompress(&b, x) || b != a {
			c.Failf("decompressing %x gives %x, want %x", x, b, a)
		}
		c.Seen("forms/compressed", p.Enc())
		e := p.Enc33()
		if c.Bool() {
			e = append([]byte{2 + byte(c.Intn(2))}, sw.B32(c.SmallX(ref.PP))...)
		}
		if err := y.FromBigEndianBytes(e); err != nil {
			c.Failf("%x refused: %v", e, err)
		}
		c.Eq("written again", y.ToBigEndianBytes(), e)
		q, ok := sw.Pasta.Lift(sw.Int(e[1:]), uint(e[0]&1))
		if got := pasta.Decompress(&b, y); got != ok {
			c.Failf("decompressing %x: %v, want %v", e, got, ok)
		}
		if ok {
			if w := (pasta.Affine{X: ref.Limbs(q.X, ref.PP), Y: ref.Limbs(q.Y, ref.PP)}); b != w {
				c.Failf("decompressing %x: %x, want %x", e, b, w)
			}
			c.Seen("forms/read", e)
		}
		bad := append([]byte{}, e...)
		switch c.Intn(3) {
		case 0:
			bad[0] = 4 + byte(c.Intn(252))
		case 1:
			bad = append(bad[:1:1], sw.B32(new(big.Int).Add(ref.PP, c.SmallX(ref.PP)))...)
		default:
			bad = bad[:c.Intn(33)]
		}
		if y.FromBigEndianBytes(bad) == nil {
			c.Failf("%x accepted as a compressed point", bad)
		}
		c.Seen("forms/refused", bad)
	}})
	groups = append(groups, mon.Group{Name: "enumerate", Quick: 4000, Thorough: 400000, Classes: []string{"enumerated"}, Fn: func(c *mon.Ctx) {
		// x = 0, 1, 2, ... on every curve, both parities
		for _, cv := range sw.All {
			for _, pre := range []byte{2, 3} {
				decide(c, cv, append([]byte{pre}, sw.B32(big.NewInt(int64(c.I)))...), "small x")
				decide(c, cv, append([]byte{pre}, sw.B32(new(big.Int).Sub(cv.P, big.NewInt(int64(c.I+1))))...), "large x")
			}
		}
		c.Seen("enumerated", c.I)
		_ = ref.K1
	}})
	mon.Main("C09", groups)
}
