// C23: every digest type equals its specification, for every message.
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"
	"golang.org/x/crypto/blake2b"
	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

func s256(m []byte) []byte { h := sha256.Sum256(m); return h[:] }
func rmd(m []byte) []byte  { h := ripemd160.New(); h.Write(m); return h.Sum(nil) }

type alg struct {
	name string
	typ  uint32
	size int
	f    func(m []byte) []byte
}

var algs = []alg{
	{"sha1", oc.HASH_ALG_SHA1, 20, func(m []byte) []byte { h := sha1.Sum(m); return h[:] }},
	{"sha3-256", oc.HASH_ALG_SHA3_256, 32, func(m []byte) []byte { return ref.Keccak(136, 6, 32, m) }},
	{"sha256", oc.HASH_ALG_SHA256, 32, s256},
	{"sha512", oc.HASH_ALG_SHA512, 64, func(m []byte) []byte { h := sha512.Sum512(m); return h[:] }},
	{"md4", oc.HASH_ALG_MD4, 16, func(m []byte) []byte { h := md4.New(); h.Write(m); return h.Sum(nil) }},
	{"md5", oc.HASH_ALG_MD5, 16, func(m []byte) []byte { h := md5.Sum(m); return h[:] }},
	{"ripemd160", oc.HASH_ALG_RIPEMD160, 20, rmd},
	{"sm3", oc.HASH_ALG_SM3, 32, ref.SM3},
	{"sha256d", oc.HASH_ALG_DOUBLE_SHA256, 32, func(m []byte) []byte { return s256(s256(m)) }},
	{"hash160", oc.HASH_ALG_HASH160, 20, func(m []byte) []byte { return rmd(s256(m)) }},
	{"blake256", oc.HASH_ALG_BLAKE256, 32, func(m []byte) []byte { return ref.Blake32(256, nil, m) }},
	{"blake512", oc.HASH_ALG_BLAKE512, 64, func(m []byte) []byte { return ref.Blake64(512, nil, m) }},
	{"keccak256", oc.HASH_ALG_KECCAK256, 32, func(m []byte) []byte { return ref.Keccak(136, 1, 32, m) }},
	{"keccak256-ripemd160", oc.HASH_ALG_KECCAK256_RIPEMD160, 20, func(m []byte) []byte { return rmd(ref.Keccak(136, 1, 32, m)) }},
	{"sha3-256-ripemd160", oc.HASH_ALG_SHA3_256_RIPEMD160, 20, func(m []byte) []byte { return rmd(ref.Keccak(136, 6, 32, m)) }},
	{"keccak512", oc.HASH_ALG_KECCAK512, 64, func(m []byte) []byte { return ref.Keccak(72, 1, 64, m) }},
	{"sha3-512", oc.HASH_ALG_SHA3_512, 64, func(m []byte) []byte { return ref.Keccak(72, 6, 64, m) }},
}

func msgOf(c *mon.Ctx, n int) []byte {
	switch c.Intn(8) {
	case 0:
		return make([]byte, n)
	case 1:
		m := make([]byte, n)
		for i := range m {
			m[i] = 0xff
		}
		return m
	}
	// an odd offset in a larger buffer, so that the data is not aligned
	off := c.Intn(9)
	return c.Bytes(n + off)[off:]
}

func checkAll(c *mon.Ctx, m []byte) {
	for _, a := range algs {
		want := a.f(m)
		got := oc.Hash(m, uint16(c.Intn(70)), a.typ)
		c.Eq(a.name+" of a message of "+itoa(len(m))+" bytes", got, want)
		if len(got) != a.size {
			c.Failf("%s: %d bytes", a.name, len(got))
		}
		c.Seen(a.name, m)
	}
	// BLAKE2b and BLAKE2s with a length
	n := 1 + c.Intn(64)
	h, _ := blake2b.New(n, nil)
	h.Write(m)
	c.Eq("blake2b", oc.Hash(m, uint16(n), oc.HASH_ALG_BLAKE2B), h.Sum(nil))
	c.Seen("blake2b", m, n)
	n = 1 + c.Intn(32)
	c.Eq("blake2s", oc.Hash(m, uint16(n), oc.HASH_ALG_BLAKE2S), ref.Blake2s(n, nil, nil, nil, nil, m))
	c.Seen("blake2s", m, n)
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string(rune('0'+n%10))
	}
	return string(rune('0' + n))
}

func main() {
	var names []string
	for _, a := range algs {
		names = append(names, a.name)
	}
	mon.Main("C23", []mon.Group{
		{Name: "every-length", Quick: 2200, Thorough: 20000, Classes: append(names, "blake2b", "blake2s"), Fn: func(c *mon.Ctx) {
			m := msgOf(c, c.I)
			checkAll(c, m)
			c.Sample("%d byte message %s: every digest equal", len(m), mon.Hex(m))
		}},
		{Name: "random", Quick: 8000, Thorough: 600000, Fn: func(c *mon.Ctx) {
			checkAll(c, msgOf(c, c.Len(3000)))
		}},
		{Name: "long", Quick: 64, Thorough: 200, Fn: func(c *mon.Ctx) {
			checkAll(c, msgOf(c, 20000+c.Intn(150000)))
		}},
		{Name: "huge-stream", Quick: 4, Thorough: 4, Classes: []string{"huge"}, Fn: hugeStream},
		{Name: "huge-whole", Quick: 19, Thorough: 19, Fn: hugeWhole},
		{Name: "sizes", Quick: 4, Thorough: 8, Classes: []string{"size-refused"}, Fn: func(c *mon.Ctx) {
			// every requested size of the two digests that have one, valid or not
			m := c.Bytes(c.Len(300))
			for n := 0; n <= 0xffff; n++ {
				if n > 300 && n%251 != 0 && n&(n-1) != 0 && n&0xff > 0x21 {
					continue
				}
				got := oc.Hash(m, uint16(n), oc.HASH_ALG_BLAKE2S)
				switch {
				case n == 0:
					c.Eq("blake2s of no size", got, ref.Blake2s(32, nil, nil, nil, nil, m))
				case n <= 32:
					c.Eq("blake2s of size "+itoa(n), got, ref.Blake2s(n, nil, nil, nil, nil, m))
				default:
					if got != nil {
						c.Failf("blake2s of size %d: %x", n, got)
					}
					c.Seen("size-refused", "s", n)
				}
				got = oc.Hash(m, uint16(n), oc.HASH_ALG_BLAKE2B)
				if n >= 1 && n <= 64 {
					h, _ := blake2b.New(n, nil)
					h.Write(m)
					c.Eq("blake2b of size "+itoa(n), got, h.Sum(nil))
				} else if got != nil {
					c.Failf("blake2b of size %d: %x", n, got)
				} else {
					c.Seen("size-refused", "b", n)
				}
			}
		}},
		{Name: "packages", Quick: 12000, Thorough: 600000, Classes: []string{"blake2s-config", "blake-salt", "shake"}, Fn: func(c *mon.Ctx) {
			n := c.Len(1500)
			if c.I < 300 {
				n = c.I
			}
			m := msgOf(c, n)
			salt := c.Bytes(16)
			h := blake256.NewSalt(salt)
			h.Write(m)
			c.Eq("blake256 with salt", h.Sum(nil), ref.Blake32(256, salt, m))
			h = blake256.New224()
			h.Write(m)
			c.Eq("blake224", h.Sum(nil), ref.Blake32(224, nil, m))
			h = blake256.New224Salt(salt)
			h.Write(m)
			c.Eq("blake224 with salt", h.Sum(nil), ref.Blake32(224, salt, m))
			salt = c.Bytes(32)
			h = blake512.NewSalt(salt)
			h.Write(m)
			c.Eq("blake512 with salt", h.Sum(nil), ref.Blake64(512, salt, m))
			h = blake512.New384()
			h.Write(m)
			c.Eq("blake384", h.Sum(nil), ref.Blake64(384, nil, m))
			h = blake512.New384Salt(salt)
			h.Write(m)
			c.Eq("blake384 with salt", h.Sum(nil), ref.Blake64(384, salt, m))
			c.Seen("blake-salt", salt, m)

			c.Eq("sm3.Sm3Sum", sm3.Sm3Sum(m), ref.SM3(m))
			a := sha3.Sum224(m)
			c.Eq("sha3.Sum224", a[:], ref.Keccak(144, 6, 28, m))
			b := sha3.Sum256(m)
			c.Eq("sha3.Sum256", b[:], ref.Keccak(136, 6, 32, m))
			d := sha3.Sum384(m)
			c.Eq("sha3.Sum384", d[:], ref.Keccak(104, 6, 48, m))
			e := sha3.Sum512(m)
			c.Eq("sha3.Sum512", e[:], ref.Keccak(72, 6, 64, m))
			out := make([]byte, c.Len(700))
			sha3.ShakeSum128(out, m)
			c.Eq("sha3.ShakeSum128", out, ref.Keccak(168, 0x1f, len(out), m))
			sha3.ShakeSum256(out, m)
			c.Eq("sha3.ShakeSum256", out, ref.Keccak(136, 0x1f, len(out), m))
			c.Seen("shake", len(out), m)

			f := blake2s.Sum256(m)
			c.Eq("blake2s.Sum256", f[:], ref.Blake2s(32, nil, nil, nil, nil, m))
			cfg := &blake2s.Config{Size: uint8(c.Intn(33)), Key: c.Bytes(c.Intn(33)), Salt: c.Bytes(c.Intn(9)), Person: c.Bytes(c.Intn(9))}
			var t *ref.B2Tree
			if c.Bool() {
				tr := &blake2s.Tree{Fanout: uint8(c.Intn(256)), MaxDepth: uint8(c.Intn(256)), LeafSize: uint32(c.U64()), NodeOffset: c.U64() >> 16, NodeDepth: uint8(c.Intn(256)), InnerHashSize: uint8(c.Intn(33)), IsLastNode: c.Bool()}
				cfg.Tree = tr
				t = &ref.B2Tree{Fanout: tr.Fanout, Depth: tr.MaxDepth, Leaf: tr.LeafSize, Offset: tr.NodeOffset, NodeDepth: tr.NodeDepth, Inner: tr.InnerHashSize, Last: tr.IsLastNode}
			}
			size := int(cfg.Size)
			if size == 0 {
				size = 32
			}
			g, err := blake2s.New(cfg)
			if err != nil {
				c.Failf("blake2s.New refuses %+v: %v", cfg, err)
			}
			g.Write(m)
			c.Eq("blake2s with parameters", g.Sum(nil), ref.Blake2s(size, cfg.Key, cfg.Salt, cfg.Person, t, m))
			c.Seen("blake2s-config", size, cfg.Key, cfg.Salt, cfg.Person, t != nil, m)
			// parameters out of range are refused
			for k, bad := range []*blake2s.Config{{Size: uint8(33 + c.Intn(223))}, {Key: c.Bytes(33 + c.Intn(300))}, {Salt: c.Bytes(9 + c.Intn(300))}, {Person: c.Bytes(9 + c.Intn(300))}, {Tree: &blake2s.Tree{InnerHashSize: uint8(33 + c.Intn(223))}}, {Tree: &blake2s.Tree{NodeOffset: 1<<48 + c.U64()>>16}}} {
				if g, err := blake2s.New(bad); err == nil || g != nil {
					c.Failf("blake2s.New accepts parameters out of range (%d)", k)
				}
			}
		}},
	})
}
