// C25: message authentication codes.
package main

import (
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake2s"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

func check(c *mon.Ctx, key, m []byte) {
	h := hmac.New(sha256.New, key)
	h.Write(m)
	w := h.Sum(nil)
	c.Eq("HMAC-SHA256 reference", ref.HMAC(ref.S256, 64, key, m), w)
	c.Eq("HMAC-SHA256", oc.Hmac(key, m, oc.HMAC_SHA256_ALG), w)
	c.Seen("sha256", key, m)
	h = hmac.New(sha512.New, key)
	h.Write(m)
	c.Eq("HMAC-SHA512", oc.Hmac(key, m, oc.HMAC_SHA512_ALG), h.Sum(nil))
	c.Seen("sha512", key, m)
	c.Eq("HMAC-SM3", oc.Hmac(key, m, oc.HMAC_SM3_ALG), ref.HMAC(ref.SM3, 64, key, m))
	c.Seen("sm3", key, m)
	if len(key) <= 32 && len(key) > 0 {
		for n := 1; n <= 32; n += 1 + c.Intn(8) {
			d := blake2s.NewMAC(uint8(n), key)
			d.Write(m)
			c.Eq("keyed BLAKE2s", d.Sum(nil), ref.Blake2s(n, key, nil, nil, nil, m))
			c.Seen("blake2s", key, m, n)
		}
	}
}

func main() {
	mon.Main("C25", []mon.Group{
		{Name: "key-lengths", Quick: 600, Thorough: 3000, Classes: []string{"sha256", "sha512", "sm3", "blake2s"}, Fn: func(c *mon.Ctx) {
			key := c.Bytes(c.I)
			if c.I == 0 && c.Bool() {
				key = nil
			}
			check(c, key, c.Bytes(c.Len(400)))
			check(c, key, nil)
			if len(key) > 0 {
				// trailing zeros do not change short keys in HMAC: both sides must agree
				key[len(key)-1] = 0
				check(c, key, c.Bytes(c.Len(200)))
			}
			c.Sample("key of %d bytes", c.I)
		}},
		{Name: "lengths", Quick: 1200, Thorough: 6000, Fn: func(c *mon.Ctx) { check(c, c.Bytes(c.Len(200)), c.Bytes(c.I)) }},
		{Name: "random", Quick: 12000, Thorough: 800000, Classes: []string{"related"}, Fn: func(c *mon.Ctx) {
			key, m := c.Bytes(c.Long(1000)), c.Bytes(c.Long(2000))
			if c.Intn(10) == 0 { // one made of the other
				pad := func(b byte) []byte {
					o := make([]byte, 64)
					copy(o, key)
					for i := range o {
						o[i] ^= b
					}
					return o
				}
				if m = c.Related(m, key, pad(0x36), pad(0x5c)); c.Bool() {
					key = c.Related(key, m)
				}
				c.Seen("related", key, m)
			}
			check(c, key, m)
		}},
		{Name: "types", Quick: 20000, Thorough: 1000000, Classes: []string{"type refused"}, Fn: func(c *mon.Ctx) {
			t := uint32(c.U64())
			switch c.Intn(3) {
			case 0:
				t = oc.HMAC_SHA256_ALG + uint32(c.I) - 500
			case 1:
				t = []uint32{oc.HMAC_SHA256_ALG, oc.HMAC_SHA512_ALG, oc.HMAC_SM3_ALG}[c.Intn(3)] ^ 1<<uint(c.Intn(32))
			}
			if t == oc.HMAC_SHA256_ALG || t == oc.HMAC_SHA512_ALG || t == oc.HMAC_SM3_ALG {
				return
			}
			if got := oc.Hmac(c.Bytes(8), c.Bytes(8), t); got != nil {
				c.Failf("type %x: %x", t, got)
			}
			c.Seen("type refused", t)
		}},
	})
}
