// C19: hashing to the BLS12-381 curves.
package main

import (
	"bytes"
	"math/big"

	root "github.com/blocktree/go-owcrypt/bls12_381"
	"github.com/blocktree/go-owcrypt/bls12_381/bls"

	"owverif/internal/bl"
	"owverif/internal/mon"
)

func tag(c *mon.Ctx) []byte {
	switch c.Intn(8) {
	case 0:
		return []byte("BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_")
	case 1:
		return []byte("QUUX-V01-CS02-with-BLS12381G1_XMD:SHA-256_SSWU_RO_")
	case 2:
		return c.Bytes([]int{0, 1, 30, 31, 32, 62, 63, 64, 127, 128, 254, 255}[c.Intn(12)])
	}
	return c.Bytes(c.Intn(256))
}

type fn struct {
	name string
	lib  func(m, d []byte) ([]byte, error)
	ref  func(m, d []byte) []byte
}

var fns = []fn{
	{"hash to G1", func(m, d []byte) ([]byte, error) {
		g := bls.NewG1()
		p, err := g.HashToCurve(m, d)
		if p == nil {
			return nil, err
		}
		return sub(g.InCorrectSubgroup(p), g.ToUncompressed(p)), err
	}, func(m, d []byte) []byte { return bl.G1.Full(bl.Hash1(m, d)) }},
	{"encode to G1", func(m, d []byte) ([]byte, error) {
		g := bls.NewG1()
		p, err := g.EncodeToPoint(m, d)
		if p == nil {
			return nil, err
		}
		return sub(g.InCorrectSubgroup(p), g.ToUncompressed(p)), err
	}, func(m, d []byte) []byte { return bl.G1.Full(bl.Encode1(m, d)) }},
	{"hash to G2", func(m, d []byte) ([]byte, error) {
		g := bls.NewG2(nil)
		p, err := g.HashToCurve(m, d)
		if p == nil {
			return nil, err
		}
		return sub(g.InCorrectSubgroup(p), g.ToUncompressed(p)), err
	}, func(m, d []byte) []byte { return bl.G2.Full(bl.Hash2(m, d)) }},
	{"encode to G2", func(m, d []byte) ([]byte, error) {
		g := bls.NewG2(nil)
		p, err := g.EncodeToCurve(m, d)
		if p == nil {
			return nil, err
		}
		return sub(g.InCorrectSubgroup(p), g.ToUncompressed(p)), err
	}, func(m, d []byte) []byte { return bl.G2.Full(bl.Encode2(m, d)) }},
}

func sub(in bool, b []byte) []byte {
	if !in {
		return append([]byte("outside of the subgroup "), b...)
	}
	return b
}

func one(c *mon.Ctx, f fn, m, d []byte) {
	m0, d0 := append([]byte{}, m...), append([]byte{}, d...)
	got, err := f.lib(m, d)
	if !bytes.Equal(m0, m) || !bytes.Equal(d0, d) {
		c.Failf("%s changed its arguments %x %x", f.name, m0, d0)
	}
	if len(d) > 255 {
		if err == nil || got != nil {
			c.Failf("%s with a tag of %d bytes: %x %v", f.name, len(d), got, err)
		}
		c.Seen(f.name+"/long tag", d, m)
		return
	}
	if err != nil {
		c.Failf("%s of %x with tag %x: %v", f.name, m, d, err)
	}
	c.Eq(f.name+" of "+mon.Hex(m)+" with tag "+mon.Hex(d), got, f.ref(m, d))
	c.Seen(f.name, m, d)
}

// Numbers that the map sends to the kernel of the isogeny, and so to the identity.
var kernel = []string{"146850b3bdc2495ed73bb803dfaa951a88abff0acb5c7aeac52b48f3c808e87ce3885b98ce916e17caef21a6cbc6b598", "ec1d2551f80abe70136a7f42e52133ebddf9b619a88147ae422a98e57581f2b0961dc019c74599f12a1b5513649a2e8",
	"a92437e90bc473049ab549b4c4a145feb4fb5cd39f7ee85c11fa62a8f5317220b398be420ca5d8364d460f6ee1efd29", "10683009c00edc5676a3d43b8b5ae8a68e75a32954f6a502e6acc1c11ed49bcaa7c843871e887ce9839920c2ff0f732f",
	"1377c0192d99508a317127abf17c64205c7aad448380027efb47ae73ea231dbd6ecd3f2841b63d309c35bb8fd13e48f0", "a2605e5991fcf3e63728a7a1468d79bacaa5f23f3816aadcd38efdd330c6d4f5bbf450f92156e0e23e16e3252bcd042",
	"854a3cb180882d5b1efc1c3cc5b3fb33b27cb739f1389986ca46e1c5cb5010d8a06fd781c63074868f316d95b8f8405", "a3bf00221e169b850c5268c3d1edd576732060760bc0c00ed0311dee8588b18130822d3027f8d142802d784ea194fca"}

func main() {
	classes := []string{}
	for _, f := range fns {
		classes = append(classes, f.name)
	}
	var gs []mon.Group
	gs = append(gs, mon.Group{Name: "messages", Quick: 2400, Thorough: 150000, Classes: classes, Fn: func(c *mon.Ctx) {
		m := c.Bytes(c.Long(300))
		one(c, fns[c.I%4], m, tag(c))
		c.Sample("message of %d bytes", len(m))
	}}, mon.Group{Name: "lengths", Quick: 4400, Thorough: 36000, Fn: func(c *mon.Ctx) {
		one(c, fns[c.I%4], c.Bytes(c.I/4), tag(c))
	}}, mon.Group{Name: "tags", Quick: 1040, Thorough: 4 * 700, Classes: []string{"hash to G1/long tag", "hash to G2/long tag", "encode to G1/long tag", "encode to G2/long tag"}, Fn: func(c *mon.Ctx) {
		n := c.I / 4
		if n > 258 {
			n = 256 + c.Intn(600)
		}
		one(c, fns[c.I%4], c.Bytes(c.Len(80)), c.Bytes(n))
	}}, mon.Group{Name: "map", Quick: 1600, Thorough: 80000, Classes: []string{"map/G1", "map/refused", "map/special"}, Fn: func(c *mon.Ctx) {
		var u *big.Int
		special := true
		switch {
		case c.I < 60:
			u = big.NewInt(int64(c.I))
		case c.I < 120:
			u = new(big.Int).Sub(bl.P, big.NewInt(int64(c.I-59)))
		case c.I < 122: // the exceptional case of the map: 11 u^2 = -1
			r, ok := bl.FpInt(big.NewInt(11)).Inv().Neg().Sqrt()
			if !ok {
				c.Failf("no exceptional number")
			}
			u = r.Int()
		case c.I < 138:
			u, _ = new(big.Int).SetString(kernel[c.I/2%8], 16)
		default:
			special = false
			u = c.Big(bl.P)
		}
		if c.I >= 120 && c.I < 138 && c.I%2 == 1 {
			u.Sub(bl.P, u)
		}
		g := bls.NewG1()
		p, err := g.MapToCurve(mon.B32(u, 48))
		if err != nil {
			c.Failf("MapToCurve of %x: %v", u, err)
		}
		c.Eq("MapToCurve of "+u.Text(16), sub(g.InCorrectSubgroup(p), g.ToUncompressed(p)), bl.G1.Full(bl.Clear1(bl.Map1(bl.FpInt(u)))))
		if special {
			c.Seen("map/special", u)
		}
		c.Seen("map/G1", u)
		bad := c.Bytes(48)
		switch c.Intn(3) {
		case 0:
			bad[0] |= 0x20
		case 1:
			bad = mon.B32(new(big.Int).Add(bl.P, big.NewInt(int64(c.Intn(50)))), 48)
		case 2:
			bad = bad[:c.Intn(48)]
			if c.Bool() {
				bad = append(make([]byte, 49), bad...)
			}
		}
		if p, err := g.MapToCurve(bad); err == nil || p != nil {
			c.Failf("MapToCurve accepts %x", bad)
		}
		c.Seen("map/refused", bad)
	}}, mon.Group{Name: "wrapper", Quick: 400, Thorough: 20000, Classes: []string{"wrapper"}, Fn: func(c *mon.Ctx) {
		// the tag in front of the message names the scheme
		d := []byte([]string{"BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_NUL_", "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_AUG_"}[c.I%2])
		m := c.Bytes(c.Long(200))
		if c.Intn(4) == 0 {
			m = append(append([]byte{}, d...), m...)
		}
		p := root.NullOwcryptG2()
		p.Hash(append(append([]byte{}, d...), m...))
		b, err := p.MarshalBinary()
		if err != nil {
			c.Failf("marshal: %v", err)
		}
		c.Eq("hash of the G2 wrapper", b, bl.G2.Comp(bl.Hash2(m, d)))
		c.Seen("wrapper", m, d)
		q := root.NullOwcryptG1()
		q.Hash(m)
		b, err = q.MarshalBinary()
		if err != nil {
			c.Failf("marshal: %v", err)
		}
		c.Eq("hash of the G1 wrapper", b, bl.G1.Comp(bl.Hash1(m, root.Domain)))
	}})
	mon.Main("C19", gs)
}
