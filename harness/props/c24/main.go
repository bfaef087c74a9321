// C24: streaming hashes, as histories of operations checked against a model that remembers what was written.
package main

import (
	"fmt"
	"hash"
	"io"

	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

// obj is a hash under test with the model.
type obj struct {
	name  string
	h     hash.Hash
	block int
	size  int
	f     func(m []byte) []byte
	m     []byte
}

func salt(c *mon.Ctx, n int) []byte { return c.Bytes(n) }

func newObj(c *mon.Ctx, k int) *obj {
	keccak := func(name string, h hash.Hash, rate int, ds byte, n int) *obj {
		return &obj{name: name, h: h, block: rate, size: n, f: func(m []byte) []byte { return ref.Keccak(rate, ds, n, m) }}
	}
	switch k % 17 {
	case 0:
		return &obj{name: "blake256", h: blake256.New(), block: 64, size: 32, f: func(m []byte) []byte { return ref.Blake32(256, nil, m) }}
	case 1:
		s := salt(c, 16)
		return &obj{name: "blake256 salt", h: blake256.NewSalt(s), block: 64, size: 32, f: func(m []byte) []byte { return ref.Blake32(256, s, m) }}
	case 2:
		return &obj{name: "blake224", h: blake256.New224(), block: 64, size: 28, f: func(m []byte) []byte { return ref.Blake32(224, nil, m) }}
	case 3:
		s := salt(c, 16)
		return &obj{name: "blake224 salt", h: blake256.New224Salt(s), block: 64, size: 28, f: func(m []byte) []byte { return ref.Blake32(224, s, m) }}
	case 4:
		return &obj{name: "blake512", h: blake512.New(), block: 128, size: 64, f: func(m []byte) []byte { return ref.Blake64(512, nil, m) }}
	case 5:
		s := salt(c, 32)
		return &obj{name: "blake512 salt", h: blake512.NewSalt(s), block: 128, size: 64, f: func(m []byte) []byte { return ref.Blake64(512, s, m) }}
	case 6:
		return &obj{name: "blake384", h: blake512.New384(), block: 128, size: 48, f: func(m []byte) []byte { return ref.Blake64(384, nil, m) }}
	case 7:
		s := salt(c, 32)
		return &obj{name: "blake384 salt", h: blake512.New384Salt(s), block: 128, size: 48, f: func(m []byte) []byte { return ref.Blake64(384, s, m) }}
	case 8:
		return &obj{name: "blake2s", h: blake2s.New256(), block: 64, size: 32, f: func(m []byte) []byte { return ref.Blake2s(32, nil, nil, nil, nil, m) }}
	case 9:
		n, key := 1+c.Intn(32), c.Bytes(1+c.Intn(32))
		return &obj{name: "blake2s mac", h: blake2s.NewMAC(uint8(n), key), block: 64, size: n, f: func(m []byte) []byte { return ref.Blake2s(n, key, nil, nil, nil, m) }}
	case 10:
		cfg := &blake2s.Config{Size: uint8(1 + c.Intn(32)), Key: c.Bytes(c.Intn(33)), Salt: c.Bytes(c.Intn(9)), Person: c.Bytes(c.Intn(9))}
		var t *ref.B2Tree
		if c.Bool() {
			tr := &blake2s.Tree{Fanout: uint8(c.Intn(256)), MaxDepth: uint8(c.Intn(256)), LeafSize: uint32(c.U64()), NodeOffset: c.U64() >> 16, NodeDepth: uint8(c.Intn(256)), InnerHashSize: uint8(c.Intn(33)), IsLastNode: c.Bool()}
			cfg.Tree = tr
			t = &ref.B2Tree{Fanout: tr.Fanout, Depth: tr.MaxDepth, Leaf: tr.LeafSize, Offset: tr.NodeOffset, NodeDepth: tr.NodeDepth, Inner: tr.InnerHashSize, Last: tr.IsLastNode}
		}
		h, err := blake2s.New(cfg)
		if err != nil {
			c.Failf("blake2s configuration %+v: %v", cfg, err)
		}
		n := int(cfg.Size)
		key, s, p := append([]byte{}, cfg.Key...), append([]byte{}, cfg.Salt...), append([]byte{}, cfg.Person...)
		// the configuration belongs to the caller again
		for _, b := range [][]byte{cfg.Key, cfg.Salt, cfg.Person} {
			for i := range b {
				b[i] ^= 0x5a
			}
		}
		if cfg.Tree != nil {
			*cfg.Tree = blake2s.Tree{Fanout: 7, IsLastNode: !cfg.Tree.IsLastNode}
			name := "blake2s tree node"
			if t.Last {
				name = "blake2s last tree node"
			}
			return &obj{name: name, h: h, block: 64, size: n, f: func(m []byte) []byte { return ref.Blake2s(n, key, s, p, t, m) }}
		}
		return &obj{name: "blake2s configured", h: h, block: 64, size: n, f: func(m []byte) []byte { return ref.Blake2s(n, key, s, p, nil, m) }}
	case 11:
		return &obj{name: "sm3", h: sm3.New(), block: 64, size: 32, f: ref.SM3}
	case 12:
		if c.Bool() {
			return keccak("keccak256", sha3.NewKeccak256(), 136, 1, 32)
		}
		return keccak("keccak512", sha3.NewKeccak512(), 72, 1, 64)
	case 13:
		return keccak("sha3-224", sha3.New224(), 144, 6, 28)
	case 14:
		return keccak("sha3-256", sha3.New256(), 136, 6, 32)
	case 15:
		return keccak("sha3-384", sha3.New384(), 104, 6, 48)
	}
	return keccak("sha3-512", sha3.New512(), 72, 6, 64)
}

func chunk(c *mon.Ctx, block int) int {
	switch c.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return block
	case 3:
		return block - 1 + c.Intn(3)
	case 4:
		return block*(1+c.Intn(4)) + c.Intn(3) - 1
	case 5:
		return c.Intn(2 * block)
	}
	return c.Intn(40)
}

func (o *obj) sum(c *mon.Ctx, hist *string) {
	pre := c.Bytes(c.Intn(20))
	spare := c.Intn(100)
	buf := make([]byte, len(pre), len(pre)+spare)
	copy(buf, pre)
	var in []byte = buf
	if c.Intn(4) == 0 {
		in, pre = nil, nil
	}
	got := o.h.Sum(in)
	want := append(append([]byte{}, pre...), o.f(o.m)...)
	*hist += fmt.Sprintf(" sum(%d)", len(pre))
	if string(got) != string(want) {
		c.Failf("%s after%s: digest %x, want %x", o.name, *hist, got, want)
	}
	if string(buf) != string(pre) && in != nil {
		c.Failf("%s after%s: the given bytes changed to %x", o.name, *hist, buf)
	}
	// the result is the caller's: changing it changes nothing
	for i := range got {
		got[i] ^= 0xa5
	}
	c.Seen(o.name, want, *hist)
}

type shake struct {
	name string
	h    sha3.ShakeHash
	rate int
	m    []byte
	read int
}

func main() {
	var names []string
	for i := 0; i < 17; i++ {
		names = append(names, []string{"blake256", "blake256 salt", "blake224", "blake224 salt", "blake512", "blake512 salt", "blake384", "blake384 salt", "blake2s", "blake2s mac", "blake2s configured", "sm3", "keccak256", "sha3-224", "sha3-256", "sha3-384", "sha3-512"}[i])
	}
	mon.Main("C24", []mon.Group{
		{Name: "histories", Quick: 17 * 900, Thorough: 17 * 60000, Classes: append(names, "blake2s tree node", "blake2s last tree node", "history/reset", "history/sum repeated", "history/continued after sum"), Fn: func(c *mon.Ctx) {
			o := newObj(c, c.I)
			hist := ""
			if o.h.Size() != o.size || o.h.BlockSize() != o.block {
				c.Failf("%s: size %d, block %d", o.name, o.h.Size(), o.h.BlockSize())
			}
			summed := false
			for s, n := 0, 3+c.Intn(14); s < n; s++ {
				switch k := c.Intn(10); {
				case k < 6:
					b := c.Bytes(chunk(c, o.block))
					keep := append([]byte{}, b...)
					w, err := o.h.Write(b)
					hist += fmt.Sprintf(" write(%d)", len(b))
					if w != len(b) || err != nil {
						c.Failf("%s after%s: wrote %d, %v", o.name, hist, w, err)
					}
					if string(b) != string(keep) {
						c.Failf("%s after%s: the written bytes changed", o.name, hist)
					}
					o.m = append(o.m, keep...)
					for i := range b { // the buffer is the caller's again
						b[i] ^= 0xff
					}
					if summed {
						c.Seen("history/continued after sum", hist, o.name)
					}
				case k < 9:
					o.sum(c, &hist)
					if c.Intn(3) == 0 {
						o.sum(c, &hist)
						c.Seen("history/sum repeated", hist, o.name)
					}
					summed = true
				default:
					o.h.Reset()
					o.m = nil
					hist += " reset"
					c.Seen("history/reset", hist, o.name)
				}
			}
			o.sum(c, &hist)
			c.Sample("%s:%s", o.name, hist)
		}},
		{Name: "every-split", Quick: 17 * 60, Thorough: 17 * 2000, Classes: []string{"split"}, Fn: func(c *mon.Ctx) {
			// one message split at every place
			o := newObj(c, c.I)
			m := c.Bytes(o.block + 1 + c.Intn(o.block*2))
			want := o.f(m)
			for k := 0; k <= len(m); k++ {
				o.h.Reset()
				o.h.Write(m[:k])
				if c.Intn(3) == 0 {
					o.h.Sum(nil)
				}
				o.h.Write(m[k:])
				if got := o.h.Sum(nil); string(got) != string(want) {
					c.Failf("%s: %d bytes split at %d: %x, want %x", o.name, len(m), k, got, want)
				}
			}
			o.h.Reset()
			for i := range m {
				o.h.Write(m[i : i+1])
			}
			if got := o.h.Sum(nil); string(got) != string(want) {
				c.Failf("%s: %d bytes one by one: %x, want %x", o.name, len(m), got, want)
			}
			c.Seen("split", o.name, m)
		}},
		{Name: "side-by-side", Quick: 1500, Thorough: 100000, Classes: []string{"side by side"}, Fn: func(c *mon.Ctx) {
			// objects of the same and of other types do not affect each other
			k := c.Intn(17)
			var os []*obj
			for i := 0; i < 4; i++ {
				if i == 2 {
					k = c.Intn(17)
				}
				os = append(os, newObj(c, k))
			}
			hist := ""
			for s := 0; s < 24; s++ {
				o := os[c.Intn(4)]
				switch c.Intn(8) {
				case 0:
					o.sum(c, &hist)
				case 1:
					o.h.Reset()
					o.m = nil
				default:
					b := c.Bytes(chunk(c, o.block))
					o.h.Write(b)
					o.m = append(o.m, b...)
				}
			}
			for _, o := range os {
				o.sum(c, &hist)
			}
			c.Seen("side by side", os[0].m, os[1].m)
		}},
		{Name: "shake", Quick: 6000, Thorough: 400000, Classes: []string{"shake/read", "shake/clone", "shake/reset", "shake/clone while reading"}, Fn: func(c *mon.Ctx) {
			mk := func() *shake {
				if c.Bool() {
					return &shake{name: "shake128", h: sha3.NewShake128(), rate: 168}
				}
				return &shake{name: "shake256", h: sha3.NewShake256(), rate: 136}
			}
			xs := []*shake{mk()}
			hist := ""
			for s, n := 0, 5+c.Intn(20); s < n; s++ {
				i := c.Intn(len(xs))
				x := xs[i]
				switch k := c.Intn(10); {
				case k < 4 && x.read == 0:
					b := c.Bytes(chunk(c, x.rate))
					x.h.Write(b)
					x.m = append(x.m, b...)
					hist += fmt.Sprintf(" %d:write(%d)", i, len(b))
				case k < 8:
					b := make([]byte, chunk(c, x.rate))
					r, err := x.h.Read(b)
					hist += fmt.Sprintf(" %d:read(%d)", i, len(b))
					if r != len(b) || err != nil {
						c.Failf("%s after%s: read %d, %v", x.name, hist, r, err)
					}
					want := ref.Keccak(x.rate, 0x1f, x.read+len(b), x.m)[x.read:]
					if string(b) != string(want) {
						c.Failf("%s after%s: output %x, want %x", x.name, hist, b, want)
					}
					x.read += len(b)
					if x.read == 0 {
						// an empty read may begin the output; nothing more is written here
						x.h.Reset()
						x.m = nil
					}
					c.Seen("shake/read", hist, b)
				case k < 9:
					if len(xs) < 4 {
						xs = append(xs, &shake{name: x.name, h: x.h.Clone(), rate: x.rate, m: append([]byte{}, x.m...), read: x.read})
						hist += fmt.Sprintf(" %d:clone", i)
						c.Seen("shake/clone", hist)
						if x.read > 0 {
							c.Seen("shake/clone while reading", hist)
						}
					}
				default:
					x.h.Reset()
					x.m, x.read = nil, 0
					hist += fmt.Sprintf(" %d:reset", i)
					c.Seen("shake/reset", hist)
				}
			}
			for _, x := range xs {
				b := make([]byte, 1+c.Intn(400))
				io.ReadFull(x.h, b)
				want := ref.Keccak(x.rate, 0x1f, x.read+len(b), x.m)[x.read:]
				if string(b) != string(want) {
					c.Failf("%s after%s: output %x, want %x", x.name, hist, b, want)
				}
			}
			c.Sample("shake:%s", hist)
		}},
	})
}
