// C01: ECDSA signatures are valid, canonical, and carry the right recovery byte.
package main

import (
	"bytes"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

func checkSig(c *mon.Ctx, cv sw.Cv, d *big.Int, q ref.Pt, h, sig []byte, v byte, ret uint16) {
	if ret != oc.SUCCESS || len(sig) != 64 {
		c.Failf("%s: signing %x with key %x: code %x, signature %s", cv.Name, h, d, ret, mon.Hex(sig))
	}
	if !cv.ECDSAVerify(q.Enc(), h, sig) {
		c.Failf("%s: signature %x of %x with key %x is not valid", cv.Name, sig, h, d)
	}
	r, s := sw.Int(sig[:32]), sw.Int(sig[32:])
	half := new(big.Int).Rsh(cv.N, 1)
	if s.Cmp(half) > 0 {
		c.Failf("%s: s of %x is above n/2", cv.Name, sig)
	}
	if !sw.Canonical(sig[:32]) || !sw.Canonical(sig[32:]) {
		c.Failf("%s: r or s of %x is not a 32 byte DER integer", cv.Name, sig)
	}
	// the random point, from the known key
	k := new(big.Int).Mul(r, d)
	k.Add(k, sw.Int(h))
	k.Mul(k, new(big.Int).ModInverse(s, cv.N)).Mod(k, cv.N)
	R := cv.MulG(k)
	if R.Inf() || new(big.Int).Mod(R.X, cv.N).Cmp(r) != 0 || byte(R.Y.Bit(0)) != v {
		c.Failf("%s: recovery byte %d of signature %x of %x with key %x: the random point is %x", cv.Name, v, sig, h, d, R.Enc())
	}
	c.Seen(cv.Name+"/signature", sig)
	c.Seen("v="+string(rune('0'+v)), sig)
	if sig[0] == 0 || sig[32] == 0 {
		c.Seen("leading-zero-byte", sig)
	}
	if sw.Int(h).Cmp(cv.N) >= 0 {
		c.Seen("hash-above-n", h)
	}
}

func main() {
	mon.Main("C01", []mon.Group{
		{Name: "sign", Quick: 3000, Thorough: 200000, Classes: []string{"secp256k1/signature", "secp256r1/signature", "v=0", "v=1", "leading-zero-byte", "hash-above-n", "related hash"}, Fn: func(c *mon.Ctx) {
			cv := sw.ECDSA[c.I%2]
			d, db, q := cv.Key(c)
			h := cv.Hash(c)
			if c.Intn(16) == 0 { // the hash is another value of the call
				h = c.Related32(db, q.Enc(), sw.B32(cv.G.X), sw.B32(cv.P), q.Enc33()[1:])
				c.Seen("related hash", h)
			}
			var id []byte
			if c.Intn(4) == 0 {
				id = c.Bytes(c.Intn(40)) // not used by ECDSA
			}
			sig, v, ret := oc.Signature(db, id, h, cv.T)
			checkSig(c, cv, d, q, h, sig, v, ret)
			if ret := oc.Verify(q.Enc(), id, h, sig, cv.T); ret != oc.SUCCESS {
				c.Failf("%s: own signature refused with %x: key %x hash %x signature %x", cv.Name, ret, d, h, sig)
			}
			c.Sample("%s key %x hash %x -> %x v=%d", cv.Name, d, h, sig, v)
		}},
		{Name: "short-s", Quick: 800, Thorough: 60000, Classes: []string{"retry-observed"}, Fn: func(c *mon.Ctx) {
			// one key and hash under many sources of randomness: s and r of every shape, and the
			// first candidate refused about every second time
			cv := sw.ECDSA[c.I%2]
			d, db, q := cv.Key(c)
			h := cv.Hash(c)
			for i := 0; i < 3; i++ {
				sig, v, ret := oc.Signature(db, nil, h, cv.T)
				checkSig(c, cv, d, q, h, sig, v, ret)
				c.Seen("retry-observed", sig)
			}
		}},
		{Name: "refused", Quick: 1500, Thorough: 60000, Classes: []string{"key-refused", "message-refused"}, Fn: func(c *mon.Ctx) {
			cv := sw.ECDSA[c.I%2]
			_, db, _ := cv.Key(c)
			h := cv.Hash(c)
			expect := func(what string, want uint16, key, msg []byte) {
				sig, v, ret := oc.Signature(key, nil, msg, cv.T)
				if ret != want || sig != nil || v != 0 {
					c.Failf("%s: %s: code %x, signature %s, v %d; want code %x and no signature (key %s, message %s)", cv.Name, what, ret, mon.Hex(sig), v, want, mon.Hex(key), mon.Hex(msg))
				}
			}
			for _, k := range [][]byte{nil, {}, make([]byte, 32), sw.B32(cv.N), bytes.Repeat([]byte{255}, 32), db[1:], append([]byte{0}, db...), append(append([]byte{}, db...), 0), c.Bytes(c.Intn(32))} {
				expect("illegal private key", oc.ECC_PRIKEY_ILLEGAL, k, h)
				c.Seen("key-refused", len(k), k)
			}
			k := new(big.Int).Add(cv.N, c.Scalar0(new(big.Int).Sub(sw.Two256, cv.N)))
			expect("private key above the order", oc.ECC_PRIKEY_ILLEGAL, sw.B32(k), h)
			c.Seen("key-refused", k)
			for _, m := range [][]byte{nil, {}, h[1:], append([]byte{0}, h...), append(append([]byte{}, h...), 0), append(append([]byte{}, h...), h...), c.Bytes(c.Intn(32)), c.Bytes(33 + c.Intn(300))} {
				expect("message that is not 32 bytes", oc.MESSAGE_ILLEGAL, db, m)
				c.Seen("message-refused", len(m), m)
			}
			// the ends of the range are legal
			for _, k := range []*big.Int{sw.One, new(big.Int).Sub(cv.N, sw.One)} {
				sig, v, ret := oc.Signature(sw.B32(k), nil, h, cv.T)
				checkSig(c, cv, k, cv.MulG(k), h, sig, v, ret)
			}
		}},
	})
}
