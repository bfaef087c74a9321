// C16: aggregation of BLS signatures.
package main

import (
	"bytes"
	"fmt"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"
	root "github.com/blocktree/go-owcrypt/bls12_381"

	"owverif/internal/bl"
	"owverif/internal/mon"
)

var types = []uint32{oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL, oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG}

func aggregate(c *mon.Ctx, typ uint32, sigs [][]byte) []byte {
	var keep [][]byte
	for _, s := range sigs {
		keep = append(keep, append([]byte{}, s...))
	}
	got, ret := oc.AggregateSignatures(typ, sigs...)
	for i := range sigs {
		if !bytes.Equal(keep[i], sigs[i]) {
			c.Failf("aggregation changed signature %d", i)
		}
	}
	if ret != oc.SUCCESS {
		if got != nil || ret != oc.FAILURE {
			c.Failf("aggregation of %x: %x code %x", sigs, got, ret)
		}
		got = nil
	}
	p, err := root.AggregateSignatures(sigs...)
	if (err == nil) != (ret == oc.SUCCESS) && len(sigs) > 0 {
		c.Failf("aggregation of %x: code %x, package %v", sigs, ret, err)
	}
	if err == nil && len(sigs) > 0 {
		c.Eq("package aggregation", p, got)
	}
	return got
}

func count(c *mon.Ctx) int {
	if c.Intn(10) == 0 {
		return 1 + c.Intn(60)
	}
	return 1 + c.Intn(8)
}

func main() {
	mon.Main("C16", []mon.Group{
		{Name: "sum", Quick: 1600, Thorough: 100000, Classes: []string{"sum", "sum with repetitions", "sum is the identity"}, Fn: func(c *mon.Ctx) {
			n := count(c)
			if c.I < 40 {
				n = 1 + c.I
			}
			var ps []bl.P2
			var sigs [][]byte
			sum := bl.P2{Inf: true}
			rep := false
			for i := 0; i < n; i++ {
				var p bl.P2
				switch x := c.Intn(12); {
				case i > 0 && x == 0:
					p, rep = ps[c.Intn(i)], true
				case i > 0 && x == 1:
					p = bl.G2.Neg(ps[c.Intn(i)])
				case i > 0 && x == 2: // so that the running sum is the identity, or doubles
					p = bl.G2.Neg(sum)
				case i > 0 && x == 3:
					p = sum
				case x == 4 && c.Intn(4) == 0:
					p = bl.P2{Inf: true}
				default:
					p = bl.G2.MulG(c.Scalar(bl.R))
				}
				ps = append(ps, p)
				sigs = append(sigs, bl.G2.Comp(p))
				sum = bl.G2.Add(sum, p)
			}
			if c.Intn(6) == 0 {
				p := bl.G2.Neg(sum)
				sigs = append(sigs, bl.G2.Comp(p))
				sum = bl.P2{Inf: true}
			}
			want := bl.G2.Comp(sum)
			typ := types[c.Intn(2)]
			c.Eq("aggregate", aggregate(c, typ, sigs), want)
			c.Seen("sum", bytes.Join(sigs, nil))
			if rep {
				c.Seen("sum with repetitions", bytes.Join(sigs, nil))
			}
			if sum.Inf {
				c.Seen("sum is the identity", bytes.Join(sigs, nil))
			}
			// another order
			for i := range sigs {
				j := c.Intn(i + 1)
				sigs[i], sigs[j] = sigs[j], sigs[i]
			}
			c.Eq("aggregate in another order", aggregate(c, typ, sigs), want)
			// in two steps
			if len(sigs) > 1 {
				h := 1 + c.Intn(len(sigs)-1)
				two := [][]byte{aggregate(c, typ, sigs[:h]), aggregate(c, typ, sigs[h:])}
				c.Eq("aggregate of aggregates", aggregate(c, typ, two), want)
			}
			c.Sample("%d signatures", len(sigs))
		}},
		{Name: "many", Quick: 26, Thorough: 600, Classes: []string{"many"}, Fn: func(c *mon.Ctx) {
			// around the numbers at which a count of 8, 9, 10 or 11 bits wraps
			n := []int{120, 255, 256, 257, 300, 511, 512, 513, 640, 1000, 1023, 1024, 1025}[c.I%13] + c.Intn(3) - 1
			typ := types[c.Intn(2)]
			// a few points, so that each also comes many times, and with known multiples
			ks := make([]*big.Int, 1+c.Intn(12))
			enc := make([][]byte, len(ks))
			for i := range ks {
				ks[i] = c.Scalar(bl.R)
				enc[i] = bl.G2.Comp(bl.G2.MulG(ks[i]))
			}
			sum := new(big.Int)
			sigs := make([][]byte, n)
			for i := range sigs {
				j := c.Intn(len(ks))
				sigs[i] = enc[j]
				sum.Add(sum, ks[j])
			}
			want := bl.G2.Comp(bl.G2.MulG(sum.Mod(sum, bl.R)))
			c.Eq(fmt.Sprintf("aggregate of %d signatures", n), aggregate(c, typ, sigs), want)
			c.Seen("many", bytes.Join(sigs, nil))
			i := c.Intn(n)
			if c.Bool() {
				i = n - 1
			}
			sigs[i] = c.Bytes(96)
			sigs[i][0] &= 0x7f
			if got, ret := oc.AggregateSignatures(typ, sigs...); got != nil || ret != oc.FAILURE {
				c.Failf("%d signatures with a bad one at place %d are aggregated", n, i)
			}
		}},
		{Name: "verify", Quick: 500, Thorough: 30000, Classes: []string{"verified", "refused"}, Fn: func(c *mon.Ctx) {
			n := 1 + c.Intn(5)
			msg := c.Bytes(c.Len(100))
			var sigs [][]byte
			ksum := new(big.Int)
			pub := bl.P1{Inf: true}
			var last bl.P1
			for i := 0; i < n; i++ {
				k := c.Scalar(bl.R)
				s, _, ret := oc.Signature(mon.B32(k, 32), nil, msg, types[0])
				if ret != oc.SUCCESS {
					c.Failf("Signature: %x", ret)
				}
				sigs = append(sigs, s)
				ksum.Add(ksum, k)
				last = bl.G1.MulG(k)
				pub = bl.G1.Add(pub, last)
				if c.Intn(4) == 0 { // the same signer again
					sigs = append(sigs, s)
					ksum.Add(ksum, k)
					pub = bl.G1.Add(pub, last)
				}
			}
			ksum.Mod(ksum, bl.R)
			if ksum.Sign() == 0 {
				return
			}
			agg := aggregate(c, types[0], sigs)
			c.Eq("aggregate of signatures", agg, bl.G2.Comp(bl.SignPoint(ksum, nil, msg, false)))
			pk := bl.G1.Comp(pub)
			if ret := oc.Verify(pk, nil, msg, agg, types[0]); ret != oc.SUCCESS {
				c.Failf("aggregate %x of message %x does not verify under the sum %x: %x", agg, msg, pk, ret)
			}
			c.Seen("verified", pk, msg)
			other := bl.G1.Comp(bl.G1.Add(pub, last))
			if c.Bool() {
				other = bl.G1.Comp(bl.G1.Add(pub, bl.G1.Neg(last)))
			}
			if ret := oc.Verify(other, nil, msg, agg, types[0]); ret != oc.FAILURE {
				c.Failf("aggregate %x of message %x verifies under another sum %x: %x", agg, msg, other, ret)
			}
			if ret := oc.Verify(pk, nil, append(msg, 0), agg, types[0]); ret != oc.FAILURE {
				c.Failf("aggregate %x of message %x verifies for another message: %x", agg, msg, ret)
			}
			c.Seen("refused", other, msg)
		}},
		{Name: "bad", Quick: 2400, Thorough: 150000, Classes: []string{"bad entry", "empty list"}, Fn: func(c *mon.Ctx) {
			typ := types[c.Intn(2)]
			if c.I == 0 {
				if got, ret := oc.AggregateSignatures(typ); got != nil || ret != oc.FAILURE {
					c.Failf("aggregation of nothing: %x %x", got, ret)
				}
				c.Seen("empty list")
			}
			var sigs [][]byte
			for i := count(c) % 7; i >= 0; i-- {
				sigs = append(sigs, bl.G2.Comp(bl.G2.MulG(c.Scalar(bl.R))))
			}
			p := bl.G2.MulG(c.Scalar(bl.R))
			b := bl.G2.Comp(p)
			switch c.I % 12 {
			case 0:
				b = bl.G2.Comp(bl.Off2(c.Intn(300)))
			case 1:
				b = bl.G2.Comp(bl.G2.Add(p, bl.Off2(c.Intn(300))))
			case 2:
				b[c.Intn(96)] ^= 1 << uint(c.Intn(8))
			case 3:
				b = b[:c.Intn(96)]
			case 4:
				b = append(b, c.Bytes(1+c.Intn(100))...)
			case 5:
				b = nil
			case 6:
				b = bl.G2.Full(p)
			case 7:
				b[0] &= 0x7f
			case 8:
				b = c.Bytes(96)
			case 9:
				b[0] |= 0x40
			case 10:
				b = make([]byte, 96)
				b[0] = []byte{0xe0, 0x40, 0x80, 0xa0, 0}[c.Intn(5)]
			case 11: // identity with something behind it
				b = make([]byte, 96)
				b[0] = 0xc0
				b[1+c.Intn(95)] = byte(1 + c.Intn(255))
			}
			at := c.Intn(len(sigs) + 1)
			sigs = append(sigs[:at], append([][]byte{b}, sigs[at:]...)...)
			q, ok := bl.G2.FromComp(b)
			if ok && bl.G2.In(q) {
				return
			}
			if got := aggregate(c, typ, sigs); got != nil {
				c.Failf("aggregation accepts %x at %d of %d", b, at, len(sigs))
			}
			c.Seen("bad entry", b, at)
			if got := aggregate(c, typ, [][]byte{b}); got != nil {
				c.Failf("aggregation of %x alone gives %x", b, got)
			}
			// the same bad entry twice, or next to its opposite
			if got := aggregate(c, typ, [][]byte{b, b}); got != nil {
				c.Failf("aggregation accepts %x twice", b)
			}
			if len(b) == 96 {
				m := append([]byte{}, b...)
				m[0] ^= 0x20
				if got := aggregate(c, typ, [][]byte{b, m}); got != nil {
					c.Failf("aggregation accepts %x with its opposite", b)
				}
			}
		}},
	})
}
