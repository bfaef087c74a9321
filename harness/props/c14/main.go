// C14: conversion between Edwards and Montgomery keys.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/ed"
	"owverif/internal/mon"
	"owverif/internal/ref"
)

func special(c *mon.Ctx) *big.Int {
	v := c.SmallX(ref.P25)
	if c.Bool() {
		v = c.Big(ref.P25)
	}
	return v
}

func main() {
	m1 := new(big.Int).Sub(ref.P25, ed.One)
	mon.Main("C14", []mon.Group{
		{Name: "ed-to-x", Quick: 40000, Thorough: 4000000, Classes: []string{"ed-to-x", "sign ignored", "back"}, Fn: func(c *mon.Ctx) {
			var y *big.Int
			if c.Bool() {
				y = ed.Point(c).Y
			} else {
				y = special(c)
			}
			if y.Cmp(ed.One) == 0 {
				return // the identity has no image
			}
			e := mon.LE(y, 32)
			want := mon.LE(ref.EdToX(y), 32)
			x, err := oc.CURVE25519_convert_Ed_to_X(e)
			if err != nil || string(x) != string(want) {
				c.Failf("Ed to X of %x gives %s %v, want %x", e, mon.Hex(x), err, want)
			}
			c.Seen("ed-to-x", e)
			e[31] |= 0x80
			x2, err := oc.CURVE25519_convert_Ed_to_X(e)
			if err != nil || string(x2) != string(want) {
				c.Failf("Ed to X of %x (sign bit set) gives %s %v, want %x", e, mon.Hex(x2), err, want)
			}
			c.Seen("sign ignored", e)
			e[31] &= 0x7f
			if u := ref.EdToX(y); u.Cmp(m1) != 0 {
				back, err := oc.CURVE25519_convert_X_to_Ed(x)
				if err != nil || string(back) != string(e) {
					c.Failf("Ed %x to X %x and back gives %s %v", e, x, mon.Hex(back), err)
				}
				c.Seen("back", e)
			}
			c.Sample("Ed %x is X %x", e, x)
		}},
		{Name: "x-to-ed", Quick: 40000, Thorough: 4000000, Classes: []string{"x-to-ed", "back-x"}, Fn: func(c *mon.Ctx) {
			u := special(c)
			if u.Cmp(m1) == 0 {
				return
			}
			b := mon.LE(u, 32)
			want := mon.LE(ref.XToEdY(u), 32)
			e, err := oc.CURVE25519_convert_X_to_Ed(b)
			if err != nil || string(e) != string(want) {
				c.Failf("X to Ed of %x gives %s %v, want %x", b, mon.Hex(e), err, want)
			}
			c.Seen("x-to-ed", b)
			if e[31]&0x80 != 0 {
				c.Failf("X to Ed of %x has the sign bit set", b)
			}
			x, err := oc.CURVE25519_convert_Ed_to_X(e)
			if err != nil || string(x) != string(b) {
				c.Failf("X %x to Ed %x and back gives %s %v", b, e, mon.Hex(x), err)
			}
			c.Seen("back-x", b)
		}},
		{Name: "keys", Quick: 6000, Thorough: 500000, Classes: []string{"same key"}, Fn: func(c *mon.Ctx) {
			sk := ed.Scalar32(c)
			if v := mon.FromLE(sk); v.Mod(v, ref.L25).Sign() == 0 {
				return
			}
			e, _ := oc.GenPubkey(sk, oc.ECC_CURVE_ED25519)
			x, _ := oc.GenPubkey(sk, oc.ECC_CURVE_X25519)
			got, err := oc.CURVE25519_convert_Ed_to_X(e)
			if err != nil || string(got) != string(x) {
				c.Failf("the ED25519 key %x of %x converts to %s %v, its X25519 key is %x", e, sk, mon.Hex(got), err, x)
			}
			back, err := oc.CURVE25519_convert_X_to_Ed(x)
			e2 := append([]byte{}, e...)
			e2[31] &= 0x7f
			if err != nil || string(back) != string(e2) {
				c.Failf("the X25519 key %x of %x converts to %s %v, its ED25519 key is %x", x, sk, mon.Hex(back), err, e)
			}
			// the clamped scalar of the CURVE25519 type
			k := append([]byte{}, sk...)
			k[0] &= 248
			k[31] = k[31]&127 | 64
			kp, _ := oc.GenPubkey(k, oc.ECC_CURVE_CURVE25519_SHA256)
			xp, _ := oc.GenPubkey(k, oc.ECC_CURVE_X25519)
			c.Eq("X25519 key and CURVE25519 key of a clamped scalar", kp, xp)
			c.Seen("same key", sk)
		}},
		{Name: "refused", Quick: 4000, Thorough: 100000, Classes: []string{"refused:length", "refused:not canonical", "edwards:not canonical"}, Fn: func(c *mon.Ctx) {
			for _, b := range [][]byte{nil, {}, c.Bytes(31), c.Bytes(33), c.Bytes(c.Intn(32)), c.Bytes(64)} {
				x, err := oc.CURVE25519_convert_Ed_to_X(b)
				e, err2 := oc.CURVE25519_convert_X_to_Ed(b)
				if x != nil || e != nil || err == nil || err2 == nil {
					c.Failf("a key of %d bytes is converted to %s, %s", len(b), mon.Hex(x), mon.Hex(e))
				}
				c.Seen("refused:length", b)
			}
			// u of at least the prime
			v := new(big.Int).Add(ref.P25, big.NewInt(int64(c.Intn(19))))
			switch c.Intn(3) {
			case 0:
				v.Add(v, ed.Two255).Mod(v, ed.Two256)
			case 1:
				v = new(big.Int).Add(ed.Two255, c.Big(ref.P25))
			}
			b := mon.LE(v, 32)
			e, err := oc.CURVE25519_convert_X_to_Ed(b)
			if err == nil || e != nil {
				c.Failf("the non-canonical key %x is converted to %s", b, mon.Hex(e))
			}
			c.Seen("refused:not canonical", b)

			// y of at least the prime: refused, or the image of y modulo the prime
			y := big.NewInt(int64(c.Intn(19)))
			if y.Cmp(ed.One) == 0 {
				return
			}
			b = mon.LE(new(big.Int).Add(y, ref.P25), 32)
			b[31] |= byte(c.Intn(2)) << 7
			want := mon.LE(ref.EdToX(y), 32)
			x, err := oc.CURVE25519_convert_Ed_to_X(b)
			if err != nil && x != nil || err == nil && string(x) != string(want) {
				c.Failf("the non-canonical Edwards key %x is converted to %s %v, want a refusal or %x", b, mon.Hex(x), err, want)
			}
			c.Seen("edwards:not canonical", b)
		}},
	})
}
