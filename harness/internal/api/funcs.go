package api

import (
	"crypto/ecdsa"
	"fmt"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

var failCodes = map[uint16]bool{oc.FAILURE: true, oc.ECC_PRIKEY_ILLEGAL: true, oc.ECC_PUBKEY_ILLEGAL: true, oc.ECC_WRONG_TYPE: true, oc.ECC_MISS_ID: true, oc.RAND_IS_NULL: true, oc.LENGTH_ERROR: true, oc.POINT_AT_INFINITY: true, oc.MESSAGE_ILLEGAL: true}

// coded checks a function with a code: lengths of all outputs on success, none otherwise.
func coded(want func(k *Call) []int) func(k *Call, r Res) string {
	return func(k *Call, r Res) string {
		if r.Code != oc.SUCCESS {
			if !failCodes[r.Code] {
				return fmt.Sprintf("code %04x is not a documented one", r.Code)
			}
			for i, o := range r.Out {
				if len(o) != 0 {
					return fmt.Sprintf("code %04x with output %d = %s", r.Code, i, mon.Hex(o))
				}
			}
			return ""
		}
		w := want(k)
		if len(r.Out) > 0 && w == nil {
			return fmt.Sprintf("success for unsupported type %08x", k.T)
		}
		for i, o := range r.Out {
			if w[i] == -1 {
				continue
			}
			if len(o) != w[i] {
				return fmt.Sprintf("success, but output %d has %d bytes instead of %d", i, len(o), w[i])
			}
		}
		return ""
	}
}

// plain checks a function that gives nil or an output of a length.
func plain(want func(k *Call) int) func(k *Call, r Res) string {
	return func(k *Call, r Res) string {
		o := r.Out[0]
		if r.Code > 1 {
			return "bad code"
		}
		if len(o) == 0 {
			return ""
		}
		if r.Code == 1 {
			return "an error or infinity together with output " + mon.Hex(o)
		}
		w := want(k)
		if w == 0 {
			return fmt.Sprintf("output %s for unsupported type %08x", mon.Hex(o), k.T)
		}
		if w > 0 && len(o) != w {
			return fmt.Sprintf("output of %d bytes instead of %d", len(o), w)
		}
		return ""
	}
}

func pubLen(t uint32) int {
	switch {
	case isSW(t), t == PA:
		return 64
	case isEd(t):
		return 32
	case isBLS(t):
		return 48
	}
	return 0
}

func sigLen(t uint32) int {
	if isBLS(t) {
		return 96
	}
	if isSW(t) || isEd(t) || t == PA {
		return 64
	}
	return 0
}

func only(n int, ts ...uint32) func(k *Call) int {
	return func(k *Call) int {
		for _, t := range ts {
			if k.T == t {
				return n
			}
		}
		return 0
	}
}

func lensOf(f func(k *Call) int) func(k *Call) []int {
	return func(k *Call) []int {
		if n := f(k); n > 0 {
			return []int{n}
		}
		return nil
	}
}

func pick(c *mon.Ctx, ts ...uint32) uint32 { return ts[c.Intn(len(ts))] }

func anyType(c *mon.Ctx) uint32 {
	// BLS is slow
	t := Types[c.Intn(len(Types))]
	if isBLS(t) && c.Intn(3) > 0 {
		t = Types[c.Intn(7)]
	}
	return t
}

func b1(ok bool) uint16 {
	if ok {
		return 1
	}
	return 0
}

func one(b []byte, code uint16) Res { return Res{[][]byte{b}, code} }

func errd(b []byte, err error) Res { return Res{[][]byte{b}, b1(err != nil)} }

var hashLens = map[uint32]int{
	oc.HASH_ALG_SHA1: 20, oc.HASH_ALG_SHA3_256: 32, oc.HASH_ALG_SHA256: 32, oc.HASH_ALG_SHA512: 64, oc.HASH_ALG_MD4: 16, oc.HASH_ALG_MD5: 16,
	oc.HASH_ALG_RIPEMD160: 20, oc.HASH_ALG_BLAKE2B: -1, oc.HASH_ALG_BLAKE2S: -1, oc.HASH_ALG_SM3: 32, oc.HASH_ALG_DOUBLE_SHA256: 32, oc.HASH_ALG_HASH160: 20,
	oc.HASH_ALG_BLAKE256: 32, oc.HASH_ALG_BLAKE512: 64, oc.HASH_ALG_KECCAK256: 32, oc.HASH_ALG_KECCAK256_RIPEMD160: 20, oc.HASH_ALG_SHA3_256_RIPEMD160: 20,
	oc.HASH_ALG_KECCAK512: 64, oc.HASH_ALG_SHA3_512: 64,
}

func data(c *mon.Ctx) []byte { return c.Bytes(c.Len(600)) }

func nameOf(t uint32) string {
	switch t {
	case K1:
		return "secp256k1"
	case R1:
		return "secp256r1"
	case SM2:
		return "sm2_std"
	case PA:
		return ""
	}
	return fmt.Sprint("curve ", t)
}

var swTypes = []uint32{K1, R1, SM2}

// kaPool is a transcript of a key agreement per seed.
type ka struct{ idI, idR, priI, pubI, priR, pubR, tpriI, tpubI, tpubR, s, s2 []byte }

var kas = map[[2]int]*ka{}

func kaOf(i, n int) *ka {
	if k, ok := kas[[2]int{i, n}]; ok {
		return k
	}
	k := &ka{idI: ids[i%4], idR: ids[(i+1)%4]}
	k.priI, k.pubI = Key(SM2, i%nKeys)
	k.priR, k.pubR = Key(SM2, (i+1)%nKeys)
	WithRand(fmt.Sprint("ka", i, n, renewed), func() {
		k.tpriI, k.tpubI = oc.KeyAgreement_initiator_step1(SM2)
		_, k.tpubR, k.s, k.s2, _ = oc.KeyAgreement_responder_step1(cp(k.idI), cp(k.idR), cp(k.priR), cp(k.pubR), cp(k.pubI), cp(k.tpubI), uint16(n), SM2)
	})
	kas[[2]int{i, n}] = k
	return k
}

var kaLens = []int{16, 32, 48, 1, 33, 300}

func kaGen(c *mon.Ctx, call *Call) *ka {
	call.T, call.N = SM2, kaLens[c.Intn(len(kaLens))]
	return kaOf(c.Intn(4), call.N)
}

func kaLen(k *Call) int {
	if k.T != SM2 {
		return 0
	}
	return k.N
}

func cps(bs ...[]byte) (o [][]byte) {
	for _, b := range bs {
		o = append(o, cp(b))
	}
	return
}

func kaRes(k, tp, s1, s2 []byte, ret uint16) Res { return Res{[][]byte{k, tp, s1, s2}, ret} }

var ciphers = map[int][]byte{}

// Funcs is the whole table.
var Funcs = append([]*Func{
	{Name: "GenPubkey", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = anyType(c)
			k.A = [][]byte{Priv(c.Rand, k.T)}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.GenPubkey(a[0], t)) },
		Check: coded(lensOf(func(k *Call) int { return pubLen(k.T) }))},
	{Name: "Signature", Top: true, Random: true, Slow: 1,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = anyType(c)
			var id []byte
			if k.T == SM2 || c.Intn(5) == 0 {
				id = ids[c.Intn(4)]
			}
			if c.Intn(8) == 0 {
				id = nil
			}
			m := matOf(k.T)
			k.A = cps(m.pri[c.Intn(nKeys)], id, m.msg[c.Intn(nMsgs)])
			if c.Bool() {
				k.A[2] = Msg(c.Rand, k.T)
			}
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			s, v, r := oc.Signature(a[0], a[1], a[2], t)
			if s != nil && isSW(t) {
				// the recovery byte is a part of the outcome
				return Res{[][]byte{s, {v}}, r}
			}
			if v != 0 {
				return Res{[][]byte{s, {v}}, r}
			}
			return Res{[][]byte{s, nil}, r}
		},
		Check: coded(func(k *Call) []int {
			if n := sigLen(k.T); n > 0 {
				return []int{n, map[bool]int{true: 1, false: 0}[isSW(k.T)]}
			}
			return nil
		})},
	{Name: "AggregateSignatures", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, NUL, AUG)
			for i := c.Intn(4); i >= 0; i-- {
				k.A = append(k.A, Sig(k.T, c.Intn(nKeys), c.Intn(2)))
			}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.AggregateSignatures(t, a...)) },
		Check: coded(lensOf(only(96, NUL, AUG)))},
	{Name: "Verify", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = anyType(c)
			i, j := c.Intn(nKeys), c.Intn(nMsgs)
			if isBLS(k.T) {
				j = c.Intn(2)
			}
			m := matOf(k.T)
			k.A = cps(m.pub[i], ids[j], m.msg[j], Sig(k.T, i, j))
			if k.T != SM2 && c.Bool() {
				k.A[1] = nil
			}
		},
		Do: func(a [][]byte, t uint32, n int) Res { return Res{nil, oc.Verify(a[0], a[1], a[2], a[3], t)} },
		Check: coded(func(k *Call) []int { return nil })},
	{Name: "Encryption", Top: true, Random: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = SM2
			k.A = cps(matOf(SM2).pub[c.Intn(nKeys)], c.Bytes(1+c.Len(200)))
		},
		Do: func(a [][]byte, t uint32, n int) Res { return one(oc.Encryption(a[0], a[1], t)) },
		Check: func(k *Call, r Res) string {
			return coded(lensOf(only(97+len(k.A[1]), SM2)))(k, r)
		}},
	{Name: "Decryption", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = SM2
			i := c.Intn(nKeys)
			pri, pub := Key(SM2, i)
			p := c.Bytes(1 + c.Len(200))
			ct, _ := oc.Encryption(pub, p, SM2)
			k.A = [][]byte{pri, ct}
		},
		Do: func(a [][]byte, t uint32, n int) Res { return one(oc.Decryption(a[0], a[1], t)) },
		Check: func(k *Call, r Res) string {
			return coded(lensOf(only(len(k.A[1])-97, SM2)))(k, r)
		}},
	{Name: "KeyAgreement_initiator_step1", Top: true, Random: true,
		Gen: func(c *mon.Ctx, k *Call) { k.T = SM2 },
		Do: func(a [][]byte, t uint32, n int) Res {
			x, y := oc.KeyAgreement_initiator_step1(t)
			return Res{[][]byte{x, y}, 0}
		},
		Check: func(k *Call, r Res) string {
			if len(r.Out[0]) == 0 && len(r.Out[1]) == 0 {
				return ""
			}
			if len(r.Out[0]) != 32 || len(r.Out[1]) != 64 {
				return "lengths"
			}
			return ""
		}},
	{Name: "KeyAgreement_initiator_step2", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			m := kaGen(c, k)
			k.A = cps(m.idI, m.idR, m.priI, m.pubI, m.pubR, m.tpriI, m.tpubI, m.tpubR, m.s2)
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			x, y, r := oc.KeyAgreement_initiator_step2(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], uint16(n), t)
			return Res{[][]byte{x, y}, r}
		},
		Check: coded(func(k *Call) []int {
			if k.T != SM2 {
				return nil
			}
			return []int{kaLen(k), 32}
		})},
	{Name: "KeyAgreement_responder_step1", Top: true, Random: true,
		Gen: func(c *mon.Ctx, k *Call) {
			m := kaGen(c, k)
			k.A = cps(m.idI, m.idR, m.priR, m.pubR, m.pubI, m.tpubI)
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			return kaRes(oc.KeyAgreement_responder_step1(a[0], a[1], a[2], a[3], a[4], a[5], uint16(n), t))
		},
		Check: coded(func(k *Call) []int {
			if k.T != SM2 {
				return nil
			}
			return []int{kaLen(k), 64, 32, 32}
		})},
	{Name: "KeyAgreement_responder_ElGamal_step1", Top: true, Random: true,
		Gen: func(c *mon.Ctx, k *Call) {
			m := kaGen(c, k)
			k.A = cps(m.idI, m.idR, m.priR, m.pubR, m.pubI, m.tpubI, Priv(c.Rand, SM2))
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			return kaRes(oc.KeyAgreement_responder_ElGamal_step1(a[0], a[1], a[2], a[3], a[4], a[5], uint16(n), a[6], t))
		},
		Check: coded(func(k *Call) []int {
			if k.T != SM2 {
				return nil
			}
			return []int{kaLen(k), 64, 32, 32}
		})},
	{Name: "KeyAgreement_responder_step2", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			m := kaGen(c, k)
			k.A = cps(m.s, m.s)
			if c.Intn(3) == 0 {
				k.A[1] = cp(m.s2)
			}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return Res{nil, oc.KeyAgreement_responder_step2(a[0], a[1], t)} },
		Check: coded(func(k *Call) []int { return nil })},
	{Name: "Point_mulBaseG", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2, ED, NUL, AUG, PA)
			k.A = [][]byte{scalarOf(c, k.T)}
		},
		Do: func(a [][]byte, t uint32, n int) Res { return one(oc.Point_mulBaseG(a[0], t), 0) },
		Check: plain(func(k *Call) int {
			switch {
			case isSW(k.T), k.T == PA:
				return 33
			case k.T == ED:
				return 32
			case isBLS(k.T):
				return 48
			}
			return 0
		})},
	{Name: "Point_mulBaseG_add", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2, ED, NUL, AUG, PA)
			p := pointOf(c, k.T)
			if isSW(k.T) && c.Intn(4) > 0 {
				p = cp(matOf(k.T).pub[c.Intn(nKeys)])
			}
			k.A = [][]byte{p, scalarOf(c, k.T)}
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			p, inf := oc.Point_mulBaseG_add(a[0], a[1], t)
			return one(p, b1(inf))
		},
		Check: plain(func(k *Call) int {
			switch {
			case isSW(k.T), k.T == PA:
				return 64
			case k.T == ED:
				return 32
			case isBLS(k.T):
				return 48
			}
			return 0
		})},
	{Name: "Point_add", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2, ED, PA)
			k.A = [][]byte{pointOf(c, k.T), pointOf(c, k.T)}
		},
		Do: func(a [][]byte, t uint32, n int) Res { return one(oc.Point_add(a[0], a[1], t)) },
		Check: coded(lensOf(func(k *Call) int {
			if k.T == ED {
				return 32
			}
			return only(64, K1, R1, SM2, PA)(k)
		}))},
	{Name: "Point_mul", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2, PA)
			k.A = [][]byte{pointOf(c, k.T), scalarOf(c, k.T)}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.Point_mul(a[0], a[1], t)) },
		Check: coded(lensOf(only(64, K1, R1, SM2, PA)))},
	{Name: "GetCurveOrder", Top: true,
		Gen:   func(c *mon.Ctx, k *Call) { k.T = pick(c, K1, R1, SM2, ED, PA) },
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.GetCurveOrder(t), 0) },
		Check: plain(only(32, K1, R1, SM2, ED, PA))},
	{Name: "PointCompress", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2, PA)
			k.A = [][]byte{pointOf(c, k.T)}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.PointCompress(a[0], t), 0) },
		Check: plain(only(33, K1, R1, SM2, PA))},
	{Name: "PointDecompress", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2, PA)
			p := pointOf(c, k.T)
			if len(p) != 33 && c.Intn(5) > 0 {
				p = oc.PointCompress(p, k.T)
			}
			k.A = [][]byte{p}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.PointDecompress(a[0], t), 0) },
		Check: plain(only(65, K1, R1, SM2, PA))},
	{Name: "RecoverPubkey", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2)
			j := c.Intn(nMsgs)
			m := matOf(k.T)
			k.A = cps(sigOf(k.T, c.Intn(nKeys), j), m.msg[j])
			if k.T == SM2 {
				k.A[1] = c.Bytes(32)
			}
		},
		Do:    func(a [][]byte, t uint32, n int) Res { return one(oc.RecoverPubkey(a[0], a[1], t)) },
		Check: coded(lensOf(only(64, K1, R1, SM2)))},
	{Name: "CURVE25519_convert_X_to_Ed", Top: true,
		Gen:   func(c *mon.Ctx, k *Call) { k.A = [][]byte{c.Bytes(32)} },
		Do:    func(a [][]byte, t uint32, n int) Res { return errd(oc.CURVE25519_convert_X_to_Ed(a[0])) },
		Check: plain(func(k *Call) int { return 32 })},
	{Name: "CURVE25519_convert_Ed_to_X", Top: true,
		Gen:   func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, ED)} },
		Do:    func(a [][]byte, t uint32, n int) Res { return errd(oc.CURVE25519_convert_Ed_to_X(a[0])) },
		Check: plain(func(k *Call) int { return 32 })},
	{Name: "Hash", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = 0xA0000000 + uint32(c.Intn(19))
			k.A = [][]byte{data(c)}
			k.N = c.Intn(70)
			if c.Intn(6) == 0 {
				k.N = c.Intn(65536)
			}
		},
		Do: func(a [][]byte, t uint32, n int) Res { return one(oc.Hash(a[0], uint16(n), t), 0) },
		Check: plain(func(k *Call) int { return hashLens[k.T] })},
	{Name: "Hmac", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = 0x50505050 + uint32(c.Intn(3))
			k.A = [][]byte{data(c), data(c)}
		},
		Do: func(a [][]byte, t uint32, n int) Res { return one(oc.Hmac(a[0], a[1], t), 0) },
		Check: plain(func(k *Call) int {
			return map[uint32]int{oc.HMAC_SHA256_ALG: 32, oc.HMAC_SHA512_ALG: 64, oc.HMAC_SM3_ALG: 32}[k.T]
		})},
	{Name: "ZA", Top: true, Fixed: false,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = SM2
			k.A = cps(c.Bytes(c.Len(300)), matOf(SM2).pub[c.Intn(nKeys)])
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			p := make([]byte, 64)
			copy(p, a[1])
			pub := &ecdsa.PublicKey{X: new(big.Int).SetBytes(p[:32]), Y: new(big.Int).SetBytes(p[32:])}
			return errd(oc.ZA(pub, a[0]))
		},
		Check: plain(func(k *Call) int { return 32 })},
	{Name: "MulBaseG_Add", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2)
			k.A = cps(matOf(k.T).pub[c.Intn(nKeys)], scalarOf(c, k.T))
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			p, inf := oc.MulBaseG_Add(a[0], a[1], nameOf(t))
			return one(p, b1(inf))
		},
		Check: plain(only(64, K1, R1, SM2))},
	{Name: "Add", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2)
			k.A = cps(matOf(k.T).pub[c.Intn(nKeys)], matOf(k.T).pub[c.Intn(nKeys)])
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			p, inf := oc.Add(a[0], a[1], nameOf(t))
			return one(p, b1(inf))
		},
		Check: plain(only(64, K1, R1, SM2))},
	{Name: "Mul", Top: true,
		Gen: func(c *mon.Ctx, k *Call) {
			k.T = pick(c, K1, R1, SM2)
			k.A = cps(matOf(k.T).pub[c.Intn(nKeys)], scalarOf(c, k.T))
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			p, inf := oc.Mul(a[0], a[1], nameOf(t))
			return one(p, b1(inf))
		},
		Check: plain(only(64, K1, R1, SM2))},
}, subs...)

var _ = ref.K1
