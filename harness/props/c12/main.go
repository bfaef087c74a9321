// C12: raw-scalar Ed25519.
package main

import (
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/ed"
	"owverif/internal/mon"
	"owverif/internal/ref"
)

const T = oc.ECC_CURVE_ED25519

func red(b []byte) *big.Int { v := mon.FromLE(b); return v.Mod(v, ref.L25) }

func main() {
	mon.Main("C12", []mon.Group{
		{Name: "sign", Quick: 4000, Thorough: 400000, Classes: []string{"key", "signed", "scalar above 2^255", "scalar zero", "scalar above order", "related message"}, Fn: func(c *mon.Ctx) {
			sk := ed.Scalar32(c)
			a := red(sk)
			want := ref.EdMulBase(a).Enc()
			pub, ret := oc.GenPubkey(sk, T)
			if ret != oc.SUCCESS || string(pub) != string(want) {
				c.Failf("public key of scalar %x: %s code %x, want %x", sk, mon.Hex(pub), ret, want)
			}
			c.Seen("key", sk)
			c.Eq("Point_mulBaseG", oc.Point_mulBaseG(sk, T), want)
			m := c.Bytes(c.Long(600))
			if c.I < 1100 {
				m = c.Bytes(c.I)
			} else if c.Intn(8) == 0 {
				m = c.Related(m, sk, pub, m)
				c.Seen("related message", m)
			}
			sig, _, ret := oc.Signature(sk, nil, m, T)
			if ret != oc.SUCCESS || len(sig) != 64 {
				c.Failf("no signature by %x: %s code %x", sk, mon.Hex(sig), ret)
			}
			if !ed.StdVerify(want, m, sig) {
				c.Failf("the standard library refuses the signature %x by the scalar %x of %s", sig, sk, mon.Hex(m))
			}
			if oc.Verify(pub, nil, m, sig, T) != oc.SUCCESS {
				c.Failf("the signature %x by the scalar %x of %s does not verify", sig, sk, mon.Hex(m))
			}
			c.Seen("signed", sk, m)
			v := mon.FromLE(sk)
			if v.Bit(255) == 1 {
				c.Seen("scalar above 2^255", sk)
			}
			if v.Cmp(ref.L25) > 0 {
				c.Seen("scalar above order", sk)
			}
			if a.Sign() == 0 {
				c.Seen("scalar zero", sk)
			}
			c.Sample("scalar %x: key %x, %d byte message: signature %x accepted by crypto/ed25519", sk, pub, len(m), sig)
		}},
		{Name: "hostile", Quick: 3200, Thorough: 300000, Classes: []string{"accepted:genuine", "refused:S not reduced", "accepted:mixed order key", "refused:mixed order R", "accepted:small order key", "refused:mutated"}, Fn: func(c *mon.Ctx) {
			ed.HostileVerify(c, func(p, m, s []byte) bool { return oc.Verify(p, nil, m, s, T) == oc.SUCCESS })
		}},
		{Name: "add", Quick: 6000, Thorough: 400000, Classes: []string{"sum", "sum is identity", "refused operand", "equal operands", "non-canonical operand", "small order operand"}, Fn: func(c *mon.Ctx) {
			p, q := ed.Point(c), ed.Point(c)
			what := "sum"
			switch c.Intn(8) {
			case 0:
				q, what = p, "equal operands"
			case 1:
				q = p.Neg()
			case 2:
				q = p.Neg().Add(ed.Torsion[c.Intn(8)])
			case 3:
				q, what = ed.Torsion[c.Intn(8)], "small order operand"
			case 4: // a non-canonical encoding
				y := big.NewInt(int64(c.Intn(19)))
				for {
					if t, ok := ref.EdLift(y, uint(c.Intn(2))); ok {
						p = t
						break
					}
					y.Add(y, ed.One).Mod(y, big.NewInt(19))
				}
				what = "non-canonical operand"
			}
			pe, qe := ed.Encodings(p), ed.Encodings(q)
			pb, qb := pe[c.Intn(len(pe))], qe[c.Intn(len(qe))]
			sum := p.Add(q)
			got, ret := oc.Point_add(pb, qb, T)
			if sum.Id() {
				if got != nil || ret != oc.FAILURE {
					c.Failf("%x + %x is the identity, got %s code %x", pb, qb, mon.Hex(got), ret)
				}
				c.Seen("sum is identity", pb, qb)
			} else {
				if ret != oc.SUCCESS || string(got) != string(sum.Enc()) {
					c.Failf("%x + %x gives %s code %x, want %x", pb, qb, mon.Hex(got), ret, sum.Enc())
				}
				c.Seen(what, pb, qb)
			}
			got2, ret2 := oc.Point_add(qb, pb, T)
			if ret2 != ret || string(got2) != string(got) {
				c.Failf("%x + %x is not commutative: %s and %s", pb, qb, mon.Hex(got), mon.Hex(got2))
			}
			bad := ed.Bad(c)
			for _, o := range [][2][]byte{{bad, qb}, {pb, bad}, {bad, bad}, {nil, qb}, {pb, nil}, {pb[:31], qb}, {pb, append(append([]byte{}, qb...), 0)}, {c.Bytes(33), qb}, {c.Bytes(64), c.Bytes(64)}} {
				if got, ret := oc.Point_add(o[0], o[1], T); got != nil || ret != oc.FAILURE {
					c.Failf("%s + %s gives %s code %x", mon.Hex(o[0]), mon.Hex(o[1]), mon.Hex(got), ret)
				}
				c.Seen("refused operand", o[0], o[1])
			}
			if got, ret := oc.Point_mul(pb, ed.Scalar32(c), T); got != nil || ret != oc.FAILURE {
				c.Failf("Point_mul gives %s code %x for an unsupported type", mon.Hex(got), ret)
			}
		}},
		{Name: "base-add", Quick: 5000, Thorough: 400000, Classes: []string{"sum", "sum is identity", "refused operand", "tweaked"}, Fn: func(c *mon.Ctx) {
			p := ed.Point(c)
			k := ed.Scalar32(c)
			if c.Intn(4) == 0 { // opposite
				a := c.Big(ref.L25)
				p = ref.EdMulBase(a)
				k = mon.LE(new(big.Int).Sub(ref.L25, a), 32)
				if c.Bool() {
					k = mon.LE(new(big.Int).Sub(new(big.Int).Mul(ref.L25, big.NewInt(int64(1+c.Intn(15)))), a), 32)
				}
				if c.Intn(3) == 0 {
					p = p.Add(ed.Torsion[c.Intn(8)])
				}
				if c.Intn(3) == 0 { // equal
					k = mon.LE(a, 32)
				}
			}
			pe := ed.Encodings(p)
			pb := pe[c.Intn(len(pe))]
			sum := p.Add(ref.EdMulBase(red(k)))
			got, inf := oc.Point_mulBaseG_add(pb, k, T)
			if sum.Id() {
				if got != nil || !inf {
					c.Failf("%x + %x G is the identity, got %s %v", pb, k, mon.Hex(got), inf)
				}
				c.Seen("sum is identity", pb, k)
			} else {
				if inf || string(got) != string(sum.Enc()) {
					c.Failf("%x + %x G gives %s %v, want %x", pb, k, mon.Hex(got), inf, sum.Enc())
				}
				c.Seen("sum", pb, k)
			}
			for _, o := range [][2][]byte{{ed.Bad(c), k}, {nil, k}, {pb[:31], k}, {append(append([]byte{}, pb...), 0), k}, {pb, nil}, {pb, k[:31]}, {pb, append(append([]byte{}, k...), 0)}} {
				if got, inf := oc.Point_mulBaseG_add(o[0], o[1], T); got != nil || inf {
					c.Failf("%s + %s G gives %s %v", mon.Hex(o[0]), mon.Hex(o[1]), mon.Hex(got), inf)
				}
				c.Seen("refused operand", o[0], o[1])
			}
			// a private key and its public key, tweaked by the same scalar
			sk := ed.Scalar32(c)
			pub, _ := oc.GenPubkey(sk, T)
			child := new(big.Int).Add(red(sk), red(k))
			cs := mon.LE(child.Mod(child, ref.L25), 32)
			cp, inf := oc.Point_mulBaseG_add(pub, k, T)
			if inf {
				if child.Sign() != 0 {
					c.Failf("tweaking %x by %x gives the identity", pub, k)
				}
				return
			}
			m := c.Bytes(c.Intn(60))
			sig, _, _ := oc.Signature(cs, nil, m, T)
			if oc.Verify(cp, nil, m, sig, T) != oc.SUCCESS || !ed.StdVerify(cp, m, sig) {
				c.Failf("the signature of the tweaked key %x (of %x by %x) does not verify under the tweaked public key %x", cs, sk, k, cp)
			}
			c.Seen("tweaked", sk, k)
		}},
		{Name: "refused", Quick: 300, Thorough: 8000, Classes: []string{"refused:scalar"}, Fn: func(c *mon.Ctx) {
			for _, b := range [][]byte{nil, {}, c.Bytes(31), c.Bytes(33), c.Bytes(64), c.Bytes(c.Intn(32))} {
				pub, ret := oc.GenPubkey(b, T)
				sig, _, ret2 := oc.Signature(b, nil, c.Bytes(10), T)
				if pub != nil || ret == oc.SUCCESS || sig != nil || ret2 == oc.SUCCESS || oc.Point_mulBaseG(b, T) != nil {
					c.Failf("a scalar of %d bytes is accepted: %s %s", len(b), mon.Hex(pub), mon.Hex(sig))
				}
				c.Seen("refused:scalar", b)
			}
		}},
	})
}
