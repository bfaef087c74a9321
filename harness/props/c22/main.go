// C22: the Poseidon sponge.
package main

import (
	"math/big"

	"github.com/blocktree/go-owcrypt/pasta"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

func elem(c *mon.Ctx) *big.Int {
	if c.Intn(3) == 0 {
		return c.SmallX(ref.PP)
	}
	return c.Big(ref.PP)
}

func fields(in []*big.Int) (o []pasta.Field) {
	for _, v := range in {
		o = append(o, ref.Limbs(v, ref.PP))
	}
	return
}

func state(c *mon.Ctx, what string, got pasta.State, want [3]*big.Int) {
	for i := range want {
		if got[i] != pasta.Field(ref.Limbs(want[i], ref.PP)) {
			c.Failf("%s: element %d of the state is %x, want %x", what, i, got[i], want[i])
		}
	}
}

func main() {
	mon.Main("C22", []mon.Group{
		{Name: "digest", Quick: 3000, Thorough: 200000, Classes: []string{"digest", "digest in parts", "digest/zero state", "digest/mainnet", "digest/odd", "digest/even", "digest/empty"}, Fn: func(c *mon.Ctx) {
			n := c.Intn(9)
			if c.I < 40 {
				n = c.I
			} else if c.Intn(40) == 0 {
				n = c.Intn(120)
				if c.Intn(6) == 0 { // around counts of 8 and 9 bits
					n = 254 + c.Intn(5) + 256*c.Intn(2)
				}
			}
			iv := [3]*big.Int{elem(c), elem(c), elem(c)}
			cl := "digest/any state"
			switch c.Intn(4) {
			case 0:
				iv, cl = [3]*big.Int{new(big.Int), new(big.Int), new(big.Int)}, "digest/zero state"
			case 1:
				iv, cl = ref.MinaMainnet, "digest/mainnet"
			case 2:
				iv, cl = ref.MinaTestnet, "digest/testnet"
			}
			in := make([]*big.Int, n)
			for i := range in {
				in[i] = elem(c)
			}
			before, after := ref.PoseidonState(iv, in)
			want := mon.B32(after[0], 32)
			f := fields(in)
			start := fields(iv[:])
			if cl == "digest/zero state" && c.Bool() {
				start = nil
			}
			ctx := pasta.Poseidon3WInit(start)
			pasta.PoseidonUpdate(&ctx, f)
			state(c, "before the digest", ctx.State, before)
			c.Eq("digest", pasta.PoseidonDigest(&ctx), want)
			state(c, "after the digest", ctx.State, after)
			c.Seen("digest", want, n)
			c.Seen(cl, want)
			c.Seen([]string{"digest/even", "digest/odd"}[n&1], want)
			if n == 0 {
				c.Seen("digest/empty", want)
			}
			for k := 0; k < 3; k++ {
				ctx := pasta.Poseidon3WInit(start)
				cut := ""
				for rest := f; ; {
					m := c.Intn(len(rest) + 1)
					if k == 0 && len(rest) > 0 {
						m = 1
					}
					part := rest[:m:m]
					if m == 0 && c.Bool() {
						part = nil
					}
					pasta.PoseidonUpdate(&ctx, part)
					rest = rest[m:]
					cut += string(rune('0' + m%10))
					if len(rest) == 0 {
						break
					}
				}
				c.Eq("digest of parts "+cut, pasta.PoseidonDigest(&ctx), want)
				c.Seen("digest in parts", want, cut)
			}
			for i, v := range fields(in) {
				if f[i] != v {
					c.Failf("input element %d changed", i)
				}
			}
			c.Sample("%d elements from %s: %x", n, cl, want)
		}},
		{Name: "permutation", Quick: 3000, Thorough: 200000, Classes: []string{"permutation"}, Fn: func(c *mon.Ctx) {
			iv := [3]*big.Int{elem(c), elem(c), elem(c)}
			ctx := pasta.Poseidon3WInit(fields(iv[:]))
			pasta.PerMutation3W(&ctx)
			state(c, "permutation", ctx.State, ref.PoseidonPerm(iv))
			c.Seen("permutation", iv[0], iv[1], iv[2])
		}},
		{Name: "interleaved", Quick: 600, Thorough: 40000, Classes: []string{"interleaved"}, Fn: func(c *mon.Ctx) {
			// several sponges side by side
			const k = 3
			var ctx [k]pasta.PoseidonCtx
			var iv [k][3]*big.Int
			var in [k][]*big.Int
			for i := range ctx {
				iv[i] = [3]*big.Int{elem(c), elem(c), elem(c)}
				ctx[i] = pasta.Poseidon3WInit(fields(iv[i][:]))
			}
			for s := 0; s < 12; s++ {
				i := c.Intn(k)
				m := c.Intn(4)
				var e []*big.Int
				for j := 0; j < m; j++ {
					e = append(e, elem(c))
				}
				in[i] = append(in[i], e...)
				pasta.PoseidonUpdate(&ctx[i], fields(e))
			}
			for i := range ctx {
				w := ref.Poseidon(iv[i], in[i])
				c.Eq("digest", pasta.PoseidonDigest(&ctx[i]), mon.B32(w, 32))
				c.Seen("interleaved", w)
			}
		}},
		{Name: "networks", Quick: 1, Thorough: 1, Classes: []string{"networks"}, Fn: func(c *mon.Ctx) {
			for i := 0; i < 3; i++ {
				if pasta.TestnetIV3W[i] != pasta.Field(ref.Limbs(ref.MinaTestnet[i], ref.PP)) || pasta.MainnetIV3W[i] != pasta.Field(ref.Limbs(ref.MinaMainnet[i], ref.PP)) {
					c.Failf("initial state of a network")
				}
			}
			c.Seen("networks", 1)
		}},
	})
}
