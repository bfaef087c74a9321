// C11: standard Ed25519.
package main

import (
	"crypto/ed25519"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/ed"
	"owverif/internal/mon"
	"owverif/internal/ref"
)

const T = oc.ECC_CURVE_ED25519_NORMAL

func seed(c *mon.Ctx) []byte {
	switch c.Intn(6) {
	case 0:
		return ed.Scalar32(c)
	case 1:
		b := make([]byte, 32)
		for i := range b {
			b[i] = byte(c.Intn(2) * 255)
		}
		return b
	}
	return c.Bytes(32)
}

func main() {
	one := func(c *mon.Ctx, sd, m []byte) {
		k := ed25519.NewKeyFromSeed(sd)
		pub, ret := oc.GenPubkey(sd, T)
		if ret != oc.SUCCESS || string(pub) != string(k[32:]) {
			c.Failf("public key of %x: %s code %x, want %x", sd, mon.Hex(pub), ret, []byte(k[32:]))
		}
		want := ed25519.Sign(k, m)
		sig, v, ret := oc.Signature(sd, nil, m, T)
		if ret != oc.SUCCESS || v != 0 || string(sig) != string(want) {
			c.Failf("signature of %s by %x: %s code %x, want %x", mon.Hex(m), sd, mon.Hex(sig), ret, want)
		}
		sig2, _, _ := oc.Signature(sd, c.Bytes(5), m, T)
		c.Eq("second signature", sig2, want)
		if r := oc.Verify(pub, nil, m, sig, T); r != oc.SUCCESS {
			c.Failf("verification of the signature %x by %x of %s gives %x", sig, pub, mon.Hex(m), r)
		}
		c.Seen("signed", sd, m)
		if len(m) == 0 {
			c.Seen("signed/empty", sd)
		}
	}
	mon.Main("C11", []mon.Group{
		{Name: "sign", Quick: 12000, Thorough: 1500000, Classes: []string{"signed", "related message"}, Fn: func(c *mon.Ctx) {
			n := c.Long(1000)
			sd, m := seed(c), c.Bytes(n)
			if c.Intn(8) == 0 {
				k := ed25519.NewKeyFromSeed(sd)
				m = c.Related(m, sd, k[32:], k, ed25519.Sign(k, m))
				c.Seen("related message", m)
			}
			one(c, sd, m)
			c.Sample("seed %x, message of %d bytes: key and signature equal those of RFC 8032", sd, len(m))
		}},
		{Name: "every-length", Quick: 700, Thorough: 5000, Classes: []string{"signed/empty"}, Fn: func(c *mon.Ctx) {
			m := c.Bytes(c.I)
			if c.I == 0 && c.Bool() {
				m = nil
			}
			one(c, seed(c), m)
		}},
		{Name: "long", Quick: 16, Thorough: 400, Fn: func(c *mon.Ctx) { one(c, seed(c), c.Bytes(60000+c.Intn(300000))) }},
		{Name: "hostile", Quick: 5200, Thorough: 300000, Classes: []string{"accepted:genuine", "refused:S not reduced", "accepted:mixed order key", "refused:mixed order key", "refused:mixed order R", "accepted:small order key", "refused:small order key",
			"refused:non-canonical key", "refused:non-canonical R", "refused:mutated", "refused:length", "refused:bad key", "accepted:zero nonce", "accepted:small order both"}, Fn: func(c *mon.Ctx) {
			ed.HostileVerify(c, func(p, m, s []byte) bool {
				r := oc.Verify(p, nil, m, s, T)
				if r != oc.SUCCESS && r != oc.FAILURE {
					c.Failf("code %x", r)
				}
				return r == oc.SUCCESS
			})
		}},
		{Name: "malleable-corners", Quick: 3000, Thorough: 300000, Classes: []string{"corner"}, Fn: func(c *mon.Ctx) {
			// S at the ends of its range, all the way to 2^256
			sd := seed(c)
			k := ed25519.NewKeyFromSeed(sd)
			m := c.Bytes(c.Intn(50))
			sig := append(ref.EdMulBase(c.Scalar0(ref.L25)).Enc(), ed.Scalar32(c)...)
			if c.Bool() {
				sig = append(ed.Point(c).Enc(), ed.Scalar32(c)...)
			}
			want := ed.StdVerify(k[32:], m, sig)
			if got := oc.Verify(k[32:], nil, m, sig, T) == oc.SUCCESS; got != want {
				c.Failf("verification of %x by %x of %x gives %v, the standard library %v", sig, []byte(k[32:]), m, got, want)
			}
			c.Seen("corner", sig)
		}},
		{Name: "refused", Quick: 400, Thorough: 8000, Classes: []string{"refused:seed"}, Fn: func(c *mon.Ctx) {
			for _, b := range [][]byte{nil, {}, c.Bytes(31), c.Bytes(33), c.Bytes(64), c.Bytes(c.Intn(32))} {
				pub, ret := oc.GenPubkey(b, T)
				if pub != nil || ret == oc.SUCCESS {
					c.Failf("public key of a seed of %d bytes: %s code %x", len(b), mon.Hex(pub), ret)
				}
				sig, _, ret := oc.Signature(b, nil, c.Bytes(10), T)
				if sig != nil || ret == oc.SUCCESS {
					c.Failf("signature by a seed of %d bytes: %s code %x", len(b), mon.Hex(sig), ret)
				}
				c.Seen("refused:seed", b)
			}
		}},
	})
}
