// C07: public keys.
package main

import (
	"crypto/ecdh"
	"crypto/ed25519"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/bl"
	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

type typ struct {
	name string
	t    uint32
	n    *big.Int // legal keys are 1..n-1 (big-endian); nil: every string
	pub  func(k []byte) []byte
	code bool // refusals have the illegal-key code
}

func short(name string, cv sw.Cv, n *big.Int, code bool) typ {
	return typ{name, cv.T, n, func(k []byte) []byte { return cv.MulG(sw.Int(k)).Enc() }, code}
}

func edPoint(k []byte) ref.Ed { return ref.EdMulBase(new(big.Int).Mod(mon.FromLE(k), ref.L25)) }

var types = []typ{
	short("secp256k1", sw.K1, ref.K1.N, true),
	short("secp256r1", sw.R1, ref.R1.N, true),
	short("SM2", sw.SM2, ref.SM2.N, true),
	{"Ed25519", oc.ECC_CURVE_ED25519_NORMAL, nil, func(k []byte) []byte { return ed25519.NewKeyFromSeed(k)[32:] }, false},
	{"Ed25519 scalar", oc.ECC_CURVE_ED25519, nil, func(k []byte) []byte { return edPoint(k).Enc() }, false},
	{"X25519", oc.ECC_CURVE_X25519, nil, func(k []byte) []byte { return mon.LE(ref.EdToX(edPoint(k).Y), 32) }, false},
	{"CURVE25519_SHA256", oc.ECC_CURVE_CURVE25519_SHA256, nil, func(k []byte) []byte { p, _ := ref.KcdsaKeys(k); return p }, false},
	{"BLS basic", oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, bl.R, func(k []byte) []byte { return bl.G1.Comp(bl.G1.MulG(sw.Int(k))) }, false},
	{"BLS augmented", oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG, bl.R, func(k []byte) []byte { return bl.G1.Comp(bl.G1.MulG(sw.Int(k))) }, false},
	short("Pasta", sw.Pasta, new(big.Int).Lsh(sw.One, 254), false),
}

func (t *typ) check(c *mon.Ctx, k []byte) {
	k0 := append([]byte{}, k...)
	legal := len(k) == 32 && (t.n == nil || sw.Int(k).Sign() > 0 && sw.Int(k).Cmp(t.n) < 0)
	pub, ret := oc.GenPubkey(k, t.t)
	if string(k) != string(k0) {
		c.Failf("%s: GenPubkey changed the key %x", t.name, k0)
	}
	if !legal {
		if ret == oc.SUCCESS || pub != nil || t.code && ret != oc.ECC_PRIKEY_ILLEGAL {
			c.Failf("%s: GenPubkey of the illegal key %x: %x code %x", t.name, k, pub, ret)
		}
		c.Seen(t.name+"/refused", k)
		return
	}
	if ret != oc.SUCCESS {
		c.Failf("%s: GenPubkey of %x: code %x", t.name, k, ret)
	}
	c.Eq(t.name+" public key of "+mon.Hex(k), pub, t.pub(k))
	c.Seen(t.name+"/derived", k)
}

func main() {
	var gs []mon.Group
	for i := range types {
		t := &types[i]
		classes := []string{t.name + "/derived", t.name + "/refused"}
		quick := 5000
		if t.name == "Pasta" {
			quick = 2500
		}
		gs = append(gs, mon.Group{Name: t.name, Quick: quick, Thorough: 200000, Classes: classes, Fn: func(c *mon.Ctx) {
			var k []byte
			n := t.n
			if n == nil {
				n = sw.Two256
			}
			switch {
			case c.I < 256: // one bit
				k = sw.B32(new(big.Int).Lsh(sw.One, uint(c.I)))
			case c.I < 512: // a run of ones
				k = sw.B32(new(big.Int).Sub(new(big.Int).Lsh(sw.One, uint(c.I-255)), sw.One))
			case c.I < 512+64: // around the order
				k = sw.B32(new(big.Int).Mod(new(big.Int).Add(n, big.NewInt(int64(c.I-544))), sw.Two256))
			case c.I < 640:
				k = sw.B32(big.NewInt(int64(c.I - 576)))
			case c.I < 700: // lengths
				k = c.Bytes(c.I - 640)
				if c.Bool() && len(k) > 0 {
					k[0] = 0
				}
			default:
				switch c.Intn(5) {
				case 0: // one digit at some place, by digits of four to eight bits
					w := uint(4 + c.Intn(5))
					k = sw.B32(new(big.Int).Mod(new(big.Int).Lsh(big.NewInt(int64(1+c.Intn(1<<w))), w*uint(c.Intn(256/int(w)))), sw.Two256))
				case 1:
					k = c.Bytes(32)
				case 2: // zero or one bytes
					k = make([]byte, 32)
					for j := range k {
						k[j] = []byte{0, 0, 255, 1, 128, byte(c.Intn(256))}[c.Intn(6)]
					}
				default:
					k = sw.B32(c.Scalar(n))
				}
			}
			for _, cv := range sw.All {
				if cv.T == t.t && c.Intn(20) == 0 {
					d, _ := cv.SpecialKey(c)
					k = sw.B32(d)
				}
			}
			t.check(c, k)
			if t.n == nil {
				// the little-endian forms of the same shapes
				r := make([]byte, len(k))
				for j := range k {
					r[j] = k[len(k)-1-j]
				}
				t.check(c, r)
			}
			c.Sample("%s key %x", t.name, k)
		}})
	}
	gs = append(gs, mon.Group{Name: "standard library", Quick: 2000, Thorough: 100000, Classes: []string{"crypto/ecdh"}, Fn: func(c *mon.Ctx) {
		// a second opinion for secp256r1
		k := sw.B32(c.Scalar(ref.R1.N))
		p, err := ecdh.P256().NewPrivateKey(k)
		if err != nil {
			c.Failf("%v", err)
		}
		pub, ret := oc.GenPubkey(k, oc.ECC_CURVE_SECP256R1)
		if ret != oc.SUCCESS {
			c.Failf("code %x", ret)
		}
		c.Eq("public key of "+mon.Hex(k), pub, p.PublicKey().Bytes()[1:])
		c.Seen("crypto/ecdh", k)
	}})
	mon.Main("C07", gs)
}
