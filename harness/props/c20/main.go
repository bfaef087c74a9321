// C20: Mina signatures over Pasta.
package main

import (
	"encoding/json"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

const T = oc.ECC_CURVE_PASTA

var P = ref.Pallas

func elem(c *mon.Ctx) *big.Int {
	if c.Intn(3) == 0 {
		return c.SmallX(ref.PP)
	}
	return c.Big(ref.PP)
}

func msg(c *mon.Ctx) ref.MinaMsg {
	m := ref.MinaMsg{IV: ref.MinaMainnet, Prefix: []*big.Int{}, Suffix: []*big.Int{}}
	switch c.Intn(4) {
	case 0:
		m.IV = ref.MinaTestnet
	case 1:
		m.IV = [3]*big.Int{elem(c), elem(c), elem(c)}
	}
	n, k := c.Intn(7), c.Intn(4)
	if c.I < 24 {
		n, k = c.I%6, c.I/6
	} else if c.Intn(60) == 0 {
		n = c.Intn(70)
	} else if c.Intn(60) == 0 {
		k = c.Intn(70)
	}
	for i := 0; i < n; i++ {
		m.Prefix = append(m.Prefix, elem(c))
	}
	for i := 0; i < k; i++ {
		m.Suffix = append(m.Suffix, elem(c))
	}
	return m
}

func form(c *mon.Ctx, p ref.Pt) []byte {
	switch c.Intn(3) {
	case 0:
		return p.Enc33()
	case 1:
		return append([]byte{4}, p.Enc()...)
	}
	return p.Enc()
}

func decide(c *mon.Ctx, what string, pub ref.Pt, m ref.MinaMsg, sig []byte) bool {
	want := m.Verify(pub, sig)
	b := form(c, pub)
	r := oc.Verify(b, nil, m.JSON(), append([]byte{}, sig...), T)
	if (r == oc.SUCCESS) != want || r != oc.SUCCESS && r != oc.FAILURE {
		c.Failf("%s: verification of %s by %x of %s gives code %x, independently %v", what, mon.Hex(sig), b, m.JSON(), r, want)
	}
	if want {
		c.Seen("accepted:"+what, b, m.JSON(), sig)
	} else {
		c.Seen("refused:"+what, b, m.JSON(), sig)
	}
	return want
}

func refused(c *mon.Ctx, what string, pub, m, sig []byte) {
	if r := oc.Verify(pub, nil, m, sig, T); r != oc.FAILURE {
		c.Failf("%s: verification of %s by %s of %s gives code %x", what, mon.Hex(sig), mon.Hex(pub), mon.Hex(m), r)
	}
	c.Seen("refused:"+what, pub, m, sig)
}

// a point whose R has the chosen parity of y
func nonce(c *mon.Ctx) *big.Int { return c.Scalar(ref.PQ) }

func main() {
	mon.Main("C20", []mon.Group{
		{Name: "sign", Quick: 600, Thorough: 60000, Classes: []string{"signed", "signed/even", "signed/odd", "accepted:genuine", "accepted:reference", "related element"}, Fn: func(c *mon.Ctx) {
			d, key, pub := sw.Pasta.Key(c)
			d = new(big.Int).Mod(d, ref.PQ)
			if d.Sign() == 0 {
				return
			}
			m := msg(c)
			for i := range m.Prefix { // elements equal to other values of the call
				if c.Intn(20) == 0 {
					m.Prefix[i] = []*big.Int{pub.X, pub.Y, m.IV[0], m.IV[2], new(big.Int).Mod(d, ref.PP)}[c.Intn(5)]
					c.Seen("related element", m.Prefix[i])
				}
			}
			sig, v, ret := oc.Signature(key, nil, m.JSON(), T)
			if ret != oc.SUCCESS || len(sig) != 64 || v != 0 {
				c.Failf("signature by %x of %s: %s, %d, code %x", key, m.JSON(), mon.Hex(sig), v, ret)
			}
			if !m.Verify(pub, sig) {
				c.Failf("the signature %x by %x of %s does not satisfy the equation", sig, key, m.JSON())
			}
			c.Seen("signed", sig)
			// was the nonce negated?  s = k + e d for the even y
			if p, ok := P.Lift(sw.Int(sig[:32]), 0); !ok || !P.On(p) {
				c.Failf("r of %x is no x coordinate", sig)
			}
			decide(c, "genuine", pub, m, sig)
			k := nonce(c)
			if P.MulG(k).Y.Bit(0) == 1 {
				c.Seen("signed/odd", k)
			} else {
				c.Seen("signed/even", k)
			}
			decide(c, "reference", pub, m, m.Sign(d, k))
			// a message that is almost the same, under the same key
			o := ref.MinaMsg{IV: m.IV, Prefix: append([]*big.Int{}, m.Prefix...), Suffix: append([]*big.Int{}, m.Suffix...)}
			switch n := len(o.Prefix) + len(o.Suffix); {
			case n == 0 || c.Intn(6) == 0:
				o.IV[c.Intn(3)] = elem(c)
			default:
				i := c.Intn(n)
				e := &o.Prefix
				if i >= len(o.Prefix) {
					i -= len(o.Prefix)
					e = &o.Suffix
				}
				v := new(big.Int).Lsh(sw.One, uint(c.Intn(254)))
				(*e)[i] = v.Xor(v, (*e)[i]).Mod(v, ref.PP)
			}
			if sig, _, ret = oc.Signature(key, nil, o.JSON(), T); ret != oc.SUCCESS || !o.Verify(pub, sig) {
				c.Failf("signature by %x of %s after %s: %s, code %x", key, o.JSON(), m.JSON(), mon.Hex(sig), ret)
			}
			decide(c, "genuine", pub, o, sig)
			c.Sample("key %x signs %s: %x", key, m.JSON(), sig)
		}},
		{Name: "shapes", Quick: 600, Thorough: 6400, Classes: []string{"every shape"}, Fn: func(c *mon.Ctx) {
			// any number of elements before and after the key and r
			n, k := c.I%80, c.I/80
			if k > 12 {
				k = c.Intn(80)
			}
			m := ref.MinaMsg{IV: ref.MinaMainnet, Prefix: []*big.Int{}, Suffix: []*big.Int{}}
			if c.Bool() {
				m.IV = ref.MinaTestnet
			}
			for i := 0; i < n; i++ {
				m.Prefix = append(m.Prefix, elem(c))
			}
			for i := 0; i < k; i++ {
				m.Suffix = append(m.Suffix, elem(c))
			}
			d := c.Scalar(ref.PQ)
			pub := P.MulG(d)
			decide(c, "reference", pub, m, m.Sign(d, nonce(c)))
			if d.BitLen() <= 254 {
				sig, _, ret := oc.Signature(mon.B32(d, 32), nil, m.JSON(), T)
				if ret != oc.SUCCESS || !m.Verify(pub, sig) {
					c.Failf("signature by %x of %s: %s, code %x", d, m.JSON(), mon.Hex(sig), ret)
				}
				if all := n + k; all > 0 {
					// one element changed
					o := ref.MinaMsg{IV: m.IV, Prefix: append([]*big.Int{}, m.Prefix...), Suffix: append([]*big.Int{}, m.Suffix...)}
					e := &o.Suffix
					i := c.Intn(all)
					if i < n {
						e = &o.Prefix
					} else {
						i -= n
					}
					(*e)[i] = new(big.Int).Mod(new(big.Int).Add((*e)[i], new(big.Int).Lsh(sw.One, uint(c.Intn(254)))), ref.PP)
					decide(c, "message changed", pub, o, sig)
				}
			}
			c.Seen("every shape", n, k)
		}},
		{Name: "fixed-nonce", Quick: 400, Thorough: 40000, Classes: []string{"fixed nonce/odd", "fixed nonce/even"}, Fn: func(c *mon.Ctx) {
			// with the random bytes known the signature is determined
			d, key, _ := sw.Pasta.Key(c)
			d = new(big.Int).Mod(d, ref.PQ)
			m := msg(c)
			k := c.Scalar(ref.PQ)
			mon.SetRand(&fixed{b: mon.B32(k, 32)})
			sig, _, ret := oc.Signature(key, nil, m.JSON(), T)
			if d.Sign() == 0 {
				return
			}
			if ret != oc.SUCCESS {
				c.Failf("no signature: code %x", ret)
			}
			if !m.Verify(P.MulG(d), sig) {
				c.Failf("the signature %x by %x of %s does not satisfy the equation (random bytes %x)", sig, key, m.JSON(), k)
			}
			if P.MulG(k).Y.Bit(0) == 1 {
				c.Seen("fixed nonce/odd", sig)
			} else {
				c.Seen("fixed nonce/even", sig)
			}
		}},
		{Name: "hostile", Quick: 500, Thorough: 60000, Classes: []string{"refused:mutated", "refused:message changed", "refused:other key", "refused:odd y", "refused:range", "refused:length", "refused:negated", "refused:malformed message", "refused:malformed key", "refused:swapped"}, Fn: func(c *mon.Ctx) {
			d := c.Scalar(ref.PQ)
			pub := P.MulG(d)
			m := msg(c)
			sig := m.Sign(d, nonce(c))
			if !decide(c, "reference", pub, m, sig) {
				c.Failf("the reference refuses itself")
			}
			flip := func(b []byte) []byte {
				o := append([]byte{}, b...)
				o[c.Intn(len(o))] ^= 1 << uint(c.Intn(8))
				return o
			}
			for i := 0; i < 3; i++ {
				decide(c, "mutated", pub, m, flip(sig))
			}
			m2 := m
			what := "message changed"
			switch c.Intn(5) {
			case 0:
				m2.IV[c.Intn(3)] = elem(c)
			case 1:
				m2.Prefix = append(append([]*big.Int{}, m.Prefix...), new(big.Int))
			case 2:
				m2.Suffix = append(append([]*big.Int{}, m.Suffix...), elem(c))
			case 3:
				m2.Prefix = append([]*big.Int{elem(c)}, m.Prefix...)
			case 4:
				if len(m.Suffix) > 0 {
					m2.Suffix = append([]*big.Int{}, m.Suffix...)
					k := c.Intn(len(m.Suffix))
					m2.Suffix[k] = new(big.Int).Mod(new(big.Int).Add(m.Suffix[k], sw.One), ref.PP)
				}
			}
			decide(c, what, pub, m2, sig)
			decide(c, "other key", sw.Pasta.Point(c), m, sig)
			decide(c, "other key", P.Neg(pub), m, sig)
			// the y of R odd: sign with the nonce not negated
			k := nonce(c)
			R := P.MulG(k)
			if R.Y.Bit(0) == 0 {
				k.Sub(ref.PQ, k)
			}
			e := m.Hash(pub, R.X)
			e.Mul(e, d).Add(e, k).Mod(e, ref.PQ)
			decide(c, "odd y", pub, m, append(mon.B32(R.X, 32), mon.B32(e, 32)...))
			// s, r not reduced
			s, r := sw.Int(sig[32:]), sw.Int(sig[:32])
			for i := int64(1); i < 4; i++ {
				sp := new(big.Int).Add(s, new(big.Int).Mul(ref.PQ, big.NewInt(i)))
				if sp.BitLen() <= 256 {
					decide(c, "range", pub, m, append(append([]byte{}, sig[:32]...), mon.B32(sp, 32)...))
				}
				rp := new(big.Int).Add(r, new(big.Int).Mul(ref.PP, big.NewInt(i)))
				if rp.BitLen() <= 256 {
					decide(c, "range", pub, m, append(mon.B32(rp, 32), sig[32:]...))
				}
			}
			decide(c, "negated", pub, m, append(append([]byte{}, sig[:32]...), mon.B32(new(big.Int).Sub(ref.PQ, s), 32)...))
			decide(c, "swapped", pub, m, append(append([]byte{}, sig[32:]...), sig[:32]...))
			j := m.JSON()
			for _, l := range []int{0, 1, 32, 63} {
				refused(c, "length", pub.Enc(), j, sig[:l])
			}
			refused(c, "length", pub.Enc(), j, append(append([]byte{}, sig...), byte(c.Intn(2))))
			refused(c, "malformed message", pub.Enc(), nil, sig)
			refused(c, "malformed message", pub.Enc(), []byte{}, sig)
			refused(c, "malformed message", pub.Enc(), j[:len(j)-1-c.Intn(len(j)-1)], sig)
			refused(c, "malformed message", pub.Enc(), c.Bytes(1+c.Intn(60)), sig)
			refused(c, "malformed key", make([]byte, 64), j, sig)
			refused(c, "malformed key", nil, j, sig)
			b := form(c, pub)
			refused(c, "malformed key", b[:len(b)-1], j, sig)
			refused(c, "malformed key", append(append([]byte{}, b...), 1), j, sig)
			y := new(big.Int).Add(pub.Y, sw.One)
			refused(c, "malformed key", append(mon.B32(pub.X, 32), mon.B32(y, 32)...), j, sig)
			refused(c, "malformed key", append(mon.B32(new(big.Int).Add(pub.X, ref.PP), 32), mon.B32(pub.Y, 32)...), j, sig)
			refused(c, "malformed key", append(mon.B32(pub.X, 32), mon.B32(new(big.Int).Add(pub.Y, ref.PP), 32)...), j, sig)
			z := pub.Enc33()
			z[0] = byte(c.Intn(256))
			if z[0] != 2 && z[0] != 3 {
				refused(c, "malformed key", z, j, sig)
			}
			if sg, _, ret := oc.Signature(mon.B32(d, 32), nil, j[:len(j)-1], T); ret == oc.SUCCESS || sg != nil {
				c.Failf("a malformed message is signed: %x", sg)
			}
			zk := make([]byte, c.Intn(40))
			if sg, _, ret := oc.Signature(zk, nil, j, T); ret == oc.SUCCESS || sg != nil {
				c.Failf("the key %x signs", zk)
			}
		}},
		{Name: "texts", Quick: 200, Thorough: 40000, Classes: []string{"spaced text", "members in another order", "text refused", "text refused/trailing", "text refused/leading", "text refused/cut", "text refused/number"}, Fn: func(c *mon.Ctx) {
			// the message is one JSON document, whatever the blanks between its tokens and the order of its members
			d := c.Scalar(ref.PQ)
			for d.BitLen() > 254 {
				d = c.Scalar(ref.PQ)
			}
			pub, m := P.MulG(d), msg(c)
			sig, j := m.Sign(d, nonce(c)), m.JSON()
			ok := func(what string, t []byte) {
				if r := oc.Verify(form(c, pub), nil, t, append([]byte{}, sig...), T); r != oc.SUCCESS {
					c.Failf("%s: verification of %x by %x of %s gives code %x, the same message is %s", what, sig, pub.Enc(), t, r, j)
				}
				s, _, ret := oc.Signature(mon.B32(d, 32), nil, t, T)
				if ret != oc.SUCCESS || !m.Verify(pub, s) {
					c.Failf("%s: signature by %x of %s: %s code %x, the same message is %s", what, d, t, mon.Hex(s), ret, j)
				}
				c.Seen(what, t)
			}
			no := func(what string, t []byte) {
				if r := oc.Verify(form(c, pub), nil, t, append([]byte{}, sig...), T); r != oc.FAILURE {
					c.Failf("%s: verification of %x by %x of %q gives code %x", what, sig, pub.Enc(), t, r)
				}
				if s, _, ret := oc.Signature(mon.B32(d, 32), nil, t, T); ret == oc.SUCCESS || s != nil {
					c.Failf("%s: %q is signed with %x: code %x", what, t, d, ret)
				}
				c.Seen("text refused", t)
				c.Seen("text refused/"+what, t)
			}
			blank := func() string { return []string{" ", "\n", "\t", "\r\n", "   "}[c.Intn(5)] }
			ok("spaced text", []byte(blank()+string(j)))
			ok("spaced text", []byte(string(j)+blank()))
			var b []byte
			in := false
			for _, x := range j {
				if x == '"' {
					in = !in
				}
				if punct := !in && (x == '{' || x == '}' || x == '[' || x == ']' || x == ',' || x == ':'); punct && c.Intn(3) == 0 {
					b = append(append(append(b, blank()...), x), blank()...)
				} else {
					b = append(b, x)
				}
			}
			ok("spaced text", b)
			var parts map[string]json.RawMessage
			if err := json.Unmarshal(j, &parts); err != nil {
				c.Failf("%v", err)
			}
			names := []string{"transactionPrefix", "transactionSuffix", "spongeIV"}
			for i := range names {
				k := i + c.Intn(3-i)
				names[i], names[k] = names[k], names[i]
			}
			t := "{"
			for i, n := range names {
				if i > 0 {
					t += ","
				}
				t += `"` + n + `":` + string(parts[n])
			}
			ok("members in another order", []byte(t+"}"))
			for _, g := range []string{"{}", "x", "]", "}", ",", "0", "null", "\x00", "\"", string(j), string(rune(33 + c.Intn(90)))} {
				no("trailing", []byte(string(j)+g))
				no("trailing", []byte(string(j)+blank()+g))
				if g != "" && g != " " {
					no("leading", []byte(g+string(j)))
				}
			}
			no("cut", j[:c.Intn(len(j))])
			no("cut", j[1+c.Intn(len(j)-1):])
			// one number replaced by what is no 64 bit number
			var at [][2]int
			for i := 0; i < len(j); i++ {
				if j[i] >= '0' && j[i] <= '9' {
					k := i
					for j[k] >= '0' && j[k] <= '9' {
						k++
					}
					at = append(at, [2]int{i, k})
					i = k
				}
			}
			p := at[c.Intn(len(at))]
			for _, n := range []string{"-1", "-0.5", "1.5", "1e-1", "18446744073709551616", "340282366920938463463374607431768211456", `"1"`, "true", "[]", "{}", "01", "0x1", "1_0", "", "+1", "NaN"} {
				no("number", append(append(append([]byte{}, j[:p[0]]...), n...), j[p[1]:]...))
			}
		}},
		{Name: "crafted", Quick: 500, Thorough: 60000, Classes: []string{"accepted:crafted", "refused:random", "refused:sum at infinity"}, Fn: func(c *mon.Ctx) {
			// keys with small or extreme coordinates, of unknown logarithm, cannot be signed for; the sum at infinity
			m := msg(c)
			pub := sw.Pasta.LiftNear(c, c.SmallX(ref.PP))
			sig := append(mon.B32(elem(c), 32), mon.B32(c.Scalar0(ref.PQ), 32)...)
			decide(c, "random", pub, m, sig)
			// s = 0 or e d = -k: signatures with extreme s
			d := c.Scalar(ref.PQ)
			pub = P.MulG(d)
			for i := 0; i < 2; i++ {
				k := nonce(c)
				R := P.MulG(k)
				if R.Y.Bit(0) == 1 {
					k.Sub(ref.PQ, k)
				}
				decide(c, "crafted", pub, m, m.Sign(d, k))
			}
			// d such that s = target: d = (s - k) / e needs the key before the hash, so use a key with s = e d + k for k = -e d + t
			decide(c, "zero s", pub, m, append(mon.B32(elem(c), 32), make([]byte, 32)...))
			// r = 0 with the sum at infinity, which has no coordinates, and with other sums
			ei := m.Hash(pub, new(big.Int))
			ei.Mul(ei, d).Mod(ei, ref.PQ)
			decide(c, "sum at infinity", pub, m, append(make([]byte, 32), mon.B32(ei, 32)...))
			decide(c, "zero r", pub, m, append(make([]byte, 32), mon.B32(c.Scalar(ref.PQ), 32)...))
		}},
	})
}

// fixed reads its bytes, over and over.
type fixed struct {
	b []byte
	n int
}

func (f *fixed) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = f.b[f.n%len(f.b)]
		f.n++
	}
	return len(p), nil
}
