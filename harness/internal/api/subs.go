package api

import (
	"hash"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake256"
	"github.com/blocktree/go-owcrypt/blake2s"
	"github.com/blocktree/go-owcrypt/blake512"
	bls "github.com/blocktree/go-owcrypt/bls12_381"
	bb "github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/eddsa"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/blocktree/go-owcrypt/sha3"
	"github.com/blocktree/go-owcrypt/sm3"

	"owverif/internal/mon"
	"owverif/internal/ref"
)

func okd(b bool) Res { return Res{nil, b1(b)} }

func genOf(t uint32) func(c *mon.Ctx, k *Call) {
	return func(c *mon.Ctx, k *Call) { k.A = [][]byte{Priv(c.Rand, t)} }
}
func signOf(t uint32, pre string) func(c *mon.Ctx, k *Call) {
	return func(c *mon.Ctx, k *Call) {
		m := matOf(t)
		k.A = cps(m.pri[c.Intn(nKeys)], append([]byte(pre), m.msg[c.Intn(nMsgs)]...))
		if c.Bool() {
			k.A[1] = append([]byte(pre), Msg(c.Rand, t)...)
		}
	}
}
func verOf(t uint32, pre string) func(c *mon.Ctx, k *Call) {
	return func(c *mon.Ctx, k *Call) {
		i, j := c.Intn(nKeys), c.Intn(2)
		m := matOf(t)
		k.A = cps(m.pub[i], append([]byte(pre), m.msg[j]...), Sig(t, i, j))
	}
}

func scheme(name string, t uint32, pre string, gen func([]byte) ([]byte, error), sign func(a, b []byte) ([]byte, error), ver func(a, b, c []byte) bool, random bool) []*Func {
	return []*Func{
		{Name: name + "gen", Gen: genOf(t), Do: func(a [][]byte, _ uint32, n int) Res { return errd(gen(a[0])) }},
		{Name: name + "sign", Gen: signOf(t, pre), Random: random, Do: func(a [][]byte, _ uint32, n int) Res { return errd(sign(a[0], a[1])) }},
		{Name: name + "verify", Gen: verOf(t, pre), Do: func(a [][]byte, _ uint32, n int) Res { return okd(ver(a[0], a[1], a[2])) }},
	}
}

// a hash object that gets its message in two parts, and is read twice
func hashFn(name string, mk func(a [][]byte, n int) hash.Hash, extra func(c *mon.Ctx) [][]byte) *Func {
	return &Func{Name: name,
		Gen: func(c *mon.Ctx, k *Call) {
			k.A = [][]byte{data(c), data(c)}
			if extra != nil {
				k.A = append(k.A, extra(c)...)
			}
			k.N = c.Intn(33)
		},
		Do: func(a [][]byte, t uint32, n int) Res {
			h := mk(a, n)
			if h == nil {
				return Res{nil, 1}
			}
			h.Write(a[0])
			x := h.Sum(nil)
			h.Write(a[1])
			y := h.Sum(nil)
			h.Reset()
			h.Write(a[1])
			return Res{[][]byte{x, y, h.Sum(nil), h.Sum(a[0][:len(a[0]):len(a[0])])}, 0}
		}}
}

func xofFn(name string, mk func() sha3.ShakeHash, sum func(o, d []byte)) []*Func {
	return []*Func{{Name: name + " object",
		Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{data(c), data(c)}; k.N = c.Intn(400) },
		Do: func(a [][]byte, t uint32, n int) Res {
			h := mk()
			h.Write(a[0])
			h.Write(a[1])
			o := Alloc(n)
			h.Read(o[:n/3])
			g := h.Clone()
			h.Read(o[n/3:])
			p := Alloc(33)
			g.Read(p)
			h.Reset()
			h.Write(a[1])
			q := Alloc(17)
			h.Read(q)
			return Res{[][]byte{o, p, q}, 0}
		}},
		{Name: name + " sum",
			Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{data(c)}; k.N = c.Intn(400) },
			Do: func(a [][]byte, t uint32, n int) Res {
				o := Alloc(n)
				sum(o, a[0])
				return Res{[][]byte{o}, 0}
			}}}
}

func p32(b []byte) *[32]byte { return (*[32]byte)(b) }

// points and encodings of BLS groups
func g1Full(c *mon.Ctx) []byte {
	g := bb.NewG1()
	p := g.New()
	g.MulScalar(p, g.One(), c.Scalar0(g.Q()))
	return g.ToUncompressed(p)
}
func g2Full(c *mon.Ctx) []byte {
	g := bb.NewG2(nil)
	p := g.New()
	g.MulScalar(p, g.One(), c.Scalar0(g.Q()))
	return g.ToUncompressed(p)
}
func g1Comp(c *mon.Ctx) []byte {
	g := bb.NewG1()
	p, err := g.FromUncompressed(g1Full(c))
	if err != nil {
		return c.Bytes(48)
	}
	return g.ToCompressed(p)
}
func g2Comp(c *mon.Ctx) []byte {
	g := bb.NewG2(nil)
	p, err := g.FromUncompressed(g2Full(c))
	if err != nil {
		return c.Bytes(96)
	}
	return g.ToCompressed(p)
}

func res1(g *bb.G1, p *bb.PointG1, err error) Res {
	if err != nil || p == nil {
		return Res{[][]byte{nil, nil}, 1}
	}
	return Res{[][]byte{g.ToUncompressed(p), g.ToBytes(p)}, 0}
}
func res2(g *bb.G2, p *bb.PointG2, err error) Res {
	if err != nil || p == nil {
		return Res{[][]byte{nil, nil}, 1}
	}
	return Res{[][]byte{g.ToUncompressed(p), g.ToBytes(p)}, 0}
}

func dst(c *mon.Ctx) []byte { return c.Bytes(1 + c.Intn(300)) }

func mont(b []byte) (f pasta.Field) {
	for i := 0; i < 32; i++ {
		f[i/8] |= uint64(b[i]) << (8 * uint(i%8))
	}
	return
}

func fieldArg(c *mon.Ctx) []byte {
	return mon.LE(c.Scalar0(ref.PP), 32)
}

var subs = func() (o []*Func) {
	o = append(o, scheme("eddsa.CURVE25519_", EDN, "", eddsa.CURVE25519_genPub, eddsa.CURVE25519_sign, eddsa.CURVE25519_verify, false)...)
	o = append(o, scheme("eddsa.ED25519_", ED, "", eddsa.ED25519_genPub, eddsa.ED25519_sign, eddsa.ED25519_verify, false)...)
	o = append(o, scheme("eddsa.X25519_", X, "", eddsa.X25519_genPub, eddsa.X25519_sign, eddsa.X25519_verify, true)...)
	o = append(o, scheme("eddsa.CURVE25519_sha256_", CS, "", eddsa.CURVE25519_sha256_genPub, eddsa.CURVE25519_sha256_sign, eddsa.CURVE25519_sha256_verify, false)...)
	o = append(o, scheme("bls12_381.", NUL, oc.BASIC_SCHEME_DST, bls.GenPublicKey, bls.Sign, bls.Verify, false)...)
	o = append(o, scheme("pasta.", PA, "", pasta.GenPublicKey, pasta.Sign, pasta.Verify, true)...)
	for _, f := range o {
		if f.Name[:3] == "bls" {
			f.Slow = 6
		}
	}
	f := func(x *Func) { o = append(o, x) }
	f(&Func{Name: "eddsa.IsPoint", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, ED)} }, Do: func(a [][]byte, t uint32, n int) Res { return okd(eddsa.IsPoint(a[0])) }})
	f(&Func{Name: "eddsa.ScalarMultBaseAdd", Fixed: true, Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, ED), scalarOf(c, ED)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			out := Alloc(32)
			inf := eddsa.ScalarMultBaseAdd(p32(a[0]), p32(a[1]), p32(out))
			return one(out, b1(inf))
		}})
	f(&Func{Name: "eddsa.Point_add", Fixed: true, Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, ED), pointOf(c, ED)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			out := Alloc(32)
			inf := eddsa.Point_add(p32(a[0]), p32(a[1]), p32(out))
			return one(out, b1(inf))
		}})
	f(&Func{Name: "eddsa.Curve", Fixed: true, Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{c.Bytes(32), c.Bytes(32)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			out := Alloc(32)
			eddsa.Curve(out, a[0], a[1])
			return one(out, 0)
		}})
	f(&Func{Name: "eddsa.Keygen", Fixed: true, Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{c.Bytes(32)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			p, s, key := Alloc(32), Alloc(32), Alloc(32)
			copy(key, a[0])
			eddsa.Keygen(p, s, key)
			return Res{[][]byte{p, s, key}, 0}
		}})
	f(&Func{Name: "eddsa.Sign", Fixed: true, Gen: func(c *mon.Ctx, k *Call) {
		x := c.Bytes(32)
		x[31] &= 0x0f
		s := c.Bytes(32)
		s[31] &= 0x0f
		h := c.Bytes(32)
		k.A = [][]byte{h, x, s}
	},
		Do: func(a [][]byte, t uint32, n int) Res {
			v := Alloc(32)
			if !eddsa.Sign(v, a[0], a[1], a[2]) {
				return Res{} // nothing is promised of v
			}
			return one(v, 1)
		}})
	f(&Func{Name: "eddsa.Verify", Fixed: true, Gen: func(c *mon.Ctx, k *Call) {
		v := c.Bytes(32)
		v[31] &= 0x0f
		k.A = [][]byte{v, c.Bytes(32), cp(matOf(CS).pub[c.Intn(nKeys)])}
	},
		Do: func(a [][]byte, t uint32, n int) Res {
			y := Alloc(32)
			if !eddsa.Verify(y, a[0], a[1], a[2]) {
				return Res{} // y cannot be computed
			}
			return one(y, 1)
		}})
	f(&Func{Name: "eddsa.IsCanonical", Fixed: true, Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{special(c), special(c)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			return Res{nil, b1(eddsa.IsCanonicalSignature(a[0])) + 2*b1(eddsa.IsCanonicalPublicKey(a[1]))}
		}})

	f(&Func{Name: "bls12_381.AggregateSignatures", Slow: 2, Gen: func(c *mon.Ctx, k *Call) {
		for i := c.Intn(4); i >= 0; i-- {
			k.A = append(k.A, Sig(NUL, c.Intn(nKeys), c.Intn(2)))
		}
	}, Do: func(a [][]byte, t uint32, n int) Res { return errd(bls.AggregateSignatures(a...)) }})
	f(&Func{Name: "bls12_381.ScalarMultBaseAdd", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, NUL), scalarOf(c, NUL)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			p, inf := bls.ScalarMultBaseAdd(a[0], a[1])
			return one(p, b1(inf))
		}})
	f(&Func{Name: "bls12_381.points", Slow: 2, Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{g1Comp(c), g2Comp(c), scalarOf(c, NUL), data(c)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			var r Res
			p, q := bls.NullOwcryptG1(), bls.NullOwcryptG2()
			e1, e2 := p.UnmarshalBinary(a[0]), q.UnmarshalBinary(a[1])
			r.Code = b1(e1 != nil) + 2*b1(e2 != nil)
			if r.Code == 0 {
				s := bls.NewScalar(a[2])
				x := bls.NullOwcryptG1().Mul(s, p)
				x.Add(x, p)
				y := bls.NullOwcryptG2().Mul(s, q)
				y.Sub(y, q)
				b, _ := x.MarshalBinary()
				d, _ := y.MarshalBinary()
				h1, _ := bls.NullOwcryptG1().Hash(a[3]).MarshalBinary()
				r.Out = [][]byte{b, d, h1}
			}
			return r
		}})
	f(&Func{Name: "bls.G1.From", Gen: func(c *mon.Ctx, k *Call) {
		k.A = [][]byte{g1Full(c), g1Comp(c), g1Full(c)}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		g := bb.NewG1()
		var r Res
		p, err := g.FromUncompressed(a[0])
		x := res1(g, p, err)
		q, err := g.FromCompressed(a[1])
		y := res1(g, q, err)
		s, err := g.FromBytes(a[2])
		z := res1(g, s, err)
		r.Code = x.Code + 2*y.Code + 4*z.Code
		r.Out = append(append(x.Out, y.Out...), z.Out...)
		return r
	}})
	f(&Func{Name: "bls.G2.From", Slow: 2, Gen: func(c *mon.Ctx, k *Call) {
		k.A = [][]byte{g2Full(c), g2Comp(c), g2Full(c)}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		g := bb.NewG2(nil)
		var r Res
		p, err := g.FromUncompressed(a[0])
		x := res2(g, p, err)
		q, err := g.FromCompressed(a[1])
		y := res2(g, q, err)
		s, err := g.FromBytes(a[2])
		z := res2(g, s, err)
		r.Code = x.Code + 2*y.Code + 4*z.Code
		r.Out = append(append(x.Out, y.Out...), z.Out...)
		return r
	}})
	f(&Func{Name: "bls.hash", Slow: 4, Gen: func(c *mon.Ctx, k *Call) {
		p, _ := new(big.Int).SetString("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab", 16)
		k.A = [][]byte{data(c), dst(c), mon.B32(c.SmallX(p), 48)}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		g, h := bb.NewG1(), bb.NewG2(nil)
		p, err := g.HashToCurve(a[0], a[1])
		x := res1(g, p, err)
		p, err = g.EncodeToPoint(a[0], a[1])
		y := res1(g, p, err)
		p, err = g.MapToCurve(a[2])
		z := res1(g, p, err)
		q, err := h.HashToCurve(a[0], a[1])
		u := res2(h, q, err)
		q, err = h.EncodeToCurve(a[0], a[1])
		v := res2(h, q, err)
		return Res{append(append(append(append(x.Out, y.Out...), z.Out...), u.Out...), v.Out...), x.Code + 2*y.Code + 4*z.Code + 8*u.Code + 16*v.Code}
	}})
	f(&Func{Name: "bls.arith", Slow: 2, Gen: func(c *mon.Ctx, k *Call) {
		k.A = [][]byte{g1Full(c), g1Full(c), g2Full(c), g2Full(c), scalarOf(c, NUL)}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		g, h := bb.NewG1(), bb.NewG2(nil)
		e := new(big.Int).SetBytes(a[4])
		p, e1 := g.FromUncompressed(a[0])
		q, e2 := g.FromUncompressed(a[1])
		u, e3 := h.FromUncompressed(a[2])
		v, e4 := h.FromUncompressed(a[3])
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			return Res{nil, 1}
		}
		var r Res
		x := g.New()
		g.MulScalar(x, p, e)
		g.Add(x, x, q)
		g.Double(x, x)
		g.Sub(x, x, p)
		g.Neg(x, x)
		r.Out = append(r.Out, g.ToBytes(x))
		m := g.New()
		g.MultiExp(m, []*bb.PointG1{p, q}, []*big.Int{e, new(big.Int).Rsh(e, 7)})
		r.Out = append(r.Out, g.ToCompressed(m))
		y := h.New()
		h.MulScalar(y, u, e)
		h.Add(y, y, v)
		h.Double(y, y)
		h.Sub(y, y, u)
		h.Neg(y, y)
		r.Out = append(r.Out, h.ToBytes(y))
		w := h.New()
		h.MultiExp(w, []*bb.PointG2{u, v}, []*big.Int{e, new(big.Int).Rsh(e, 9)})
		r.Out = append(r.Out, h.ToCompressed(w))
		return r
	}})
	f(&Func{Name: "bls.pair", Slow: 4, Gen: func(c *mon.Ctx, k *Call) {
		k.A = [][]byte{g1Full(c), g2Full(c), g1Full(c), g2Full(c)}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		en := bb.NewEngine()
		p, e1 := en.G1.FromUncompressed(a[0])
		u, e2 := en.G2.FromUncompressed(a[1])
		q, e3 := en.G1.FromUncompressed(a[2])
		v, e4 := en.G2.FromUncompressed(a[3])
		if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
			return Res{nil, 1}
		}
		en.AddPair(p, u)
		en.AddPairInv(q, v)
		x := en.Result()
		gt := en.GT()
		return Res{[][]byte{gt.ToBytes(x)}, 0}
	}})
	f(&Func{Name: "bls.GT.FromBytes", Gen: func(c *mon.Ctx, k *Call) {
		k.A = [][]byte{c.Bytes(576)}
		for i := 0; i < 576; i += 48 {
			k.A[0][i] = 0
		}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		gt := bb.NewGT()
		e, err := gt.FromBytes(a[0])
		if err != nil {
			return Res{nil, 1}
		}
		x := gt.New()
		gt.Mul(x, e, e)
		gt.Inverse(x, x)
		return Res{[][]byte{gt.ToBytes(x)}, 0}
	}})

	f(&Func{Name: "pasta.PointMulBaseGAdd", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, PA), scalarOf(c, PA)} },
		Do: func(a [][]byte, t uint32, n int) Res { return errd(pasta.PointMulBaseGAdd(a[0], a[1])) }})
	f(&Func{Name: "pasta.PointAdd", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, PA), pointOf(c, PA)} },
		Do: func(a [][]byte, t uint32, n int) Res { return errd(pasta.PointAdd(a[0], a[1])) }})
	f(&Func{Name: "pasta.PointMul", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{pointOf(c, PA), scalarOf(c, PA)} },
		Do: func(a [][]byte, t uint32, n int) Res { return errd(pasta.PointMul(a[0], a[1])) }})
	f(&Func{Name: "pasta.PointDecompress", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{oc.PointCompress(Key1(c), PA)} },
		Do: func(a [][]byte, t uint32, n int) Res { return errd(pasta.PointDecompress(a[0])) }})
	f(&Func{Name: "pasta.NewMinaMessage", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{Mina(c.Rand)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			m, err := pasta.NewMinaMessage(a[0])
			if err != nil {
				return Res{[][]byte{nil}, 1}
			}
			return one(m.ToBytes(), 0)
		}})
	f(&Func{Name: "pasta.fields", Fixed: true, Gen: func(c *mon.Ctx, k *Call) {
		k.A = [][]byte{fieldArg(c), fieldArg(c), mon.LE(c.Scalar0(ref.PQ), 32), mon.LE(c.Scalar0(ref.PQ), 32)}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		x, y := mont(a[0]), mont(a[1])
		u, v := pasta.Scalar(mont(a[2])), pasta.Scalar(mont(a[3]))
		var out []byte
		put := func(z [4]uint64) {
			for _, w := range z {
				for i := 0; i < 8; i++ {
					out = append(out, byte(w>>(8*uint(i))))
				}
			}
		}
		var z pasta.Field
		pasta.FieldAdd(&z, x, y)
		put(z)
		pasta.FieldSub(&z, x, y)
		put(z)
		pasta.FieldMul(&z, x, y)
		put(z)
		pasta.FieldSq(&z, x)
		put(z)
		pasta.FieldInv(&z, x)
		put(z)
		pasta.FieldNegate(&z, y)
		put(z)
		pasta.FieldPow(&z, x, a[1][0])
		put(z)
		var s pasta.Scalar
		pasta.ScalarAdd(&s, u, v)
		put(s)
		pasta.ScalarSub(&s, u, v)
		put(s)
		pasta.ScalarMul(&s, u, v)
		put(s)
		pasta.ScalarSq(&s, u)
		put(s)
		pasta.ScalarNegate(&s, u)
		put(s)
		return one(out, uint16(pasta.FieldEq(x, y)))
	}})
	f(&Func{Name: "pasta.Poseidon", Fixed: true, Gen: func(c *mon.Ctx, k *Call) {
		for i := c.Intn(6); i >= 0; i-- {
			k.A = append(k.A, fieldArg(c))
		}
	}, Do: func(a [][]byte, t uint32, n int) Res {
		ctx := pasta.Poseidon3WInit([]pasta.Field{mont(a[0]), {}, {}})
		for _, x := range a {
			pasta.PoseidonUpdate(&ctx, []pasta.Field{mont(x)})
		}
		return one(pasta.PoseidonDigest(&ctx), 0)
	}})

	plainHash := func(mk func() hash.Hash) func(a [][]byte, n int) hash.Hash {
		return func(a [][]byte, n int) hash.Hash { return mk() }
	}
	salt := func(k int) func(c *mon.Ctx) [][]byte {
		return func(c *mon.Ctx) [][]byte { return [][]byte{c.Bytes(k)} }
	}
	safe := func(f func() hash.Hash) (h hash.Hash) {
		if p := mon.Try(func() { h = f() }); p != "" {
			return nil
		}
		return h
	}
	f(hashFn("blake256.New", plainHash(blake256.New), nil))
	f(hashFn("blake256.New224", plainHash(blake256.New224), nil))
	f(hashFn("blake256.NewSalt", func(a [][]byte, n int) hash.Hash { return safe(func() hash.Hash { return blake256.NewSalt(a[2]) }) }, salt(16)))
	f(hashFn("blake256.New224Salt", func(a [][]byte, n int) hash.Hash { return safe(func() hash.Hash { return blake256.New224Salt(a[2]) }) }, salt(16)))
	f(hashFn("blake512.New", plainHash(blake512.New), nil))
	f(hashFn("blake512.New384", plainHash(blake512.New384), nil))
	f(hashFn("blake512.NewSalt", func(a [][]byte, n int) hash.Hash { return safe(func() hash.Hash { return blake512.NewSalt(a[2]) }) }, salt(32)))
	f(hashFn("blake512.New384Salt", func(a [][]byte, n int) hash.Hash { return safe(func() hash.Hash { return blake512.New384Salt(a[2]) }) }, salt(32)))
	f(hashFn("blake2s.New256", plainHash(blake2s.New256), nil))
	f(hashFn("blake2s.New", func(a [][]byte, n int) hash.Hash {
		cfg := &blake2s.Config{Size: byte(n), Key: a[2], Salt: a[3], Person: a[4]}
		before := *cfg
		h, err := blake2s.New(cfg)
		if before.Size != cfg.Size || string(before.Key) != string(cfg.Key) || len(before.Salt) != len(cfg.Salt) || len(before.Person) != len(cfg.Person) {
			panic("the configuration was changed")
		}
		if err != nil {
			return nil
		}
		return h
	}, func(c *mon.Ctx) [][]byte { return [][]byte{c.Bytes(c.Intn(33)), c.Bytes(c.Intn(9)), c.Bytes(c.Intn(9))} }))
	f(hashFn("blake2s.NewMAC", func(a [][]byte, n int) hash.Hash { return safe(func() hash.Hash { return blake2s.NewMAC(byte(n), a[2]) }) }, func(c *mon.Ctx) [][]byte { return [][]byte{c.Bytes(c.Intn(33))} }))
	f(hashFn("sha3.New224", plainHash(sha3.New224), nil))
	f(hashFn("sha3.New256", plainHash(sha3.New256), nil))
	f(hashFn("sha3.New384", plainHash(sha3.New384), nil))
	f(hashFn("sha3.New512", plainHash(sha3.New512), nil))
	f(hashFn("sha3.NewKeccak256", plainHash(sha3.NewKeccak256), nil))
	f(hashFn("sha3.NewKeccak512", plainHash(sha3.NewKeccak512), nil))
	f(hashFn("sm3.New", plainHash(sm3.New), nil))
	o = append(o, xofFn("sha3.Shake128", sha3.NewShake128, sha3.ShakeSum128)...)
	o = append(o, xofFn("sha3.Shake256", sha3.NewShake256, sha3.ShakeSum256)...)
	f(&Func{Name: "sums", Gen: func(c *mon.Ctx, k *Call) { k.A = [][]byte{data(c)} },
		Do: func(a [][]byte, t uint32, n int) Res {
			x1, x2, x3, x4 := sha3.Sum224(a[0]), sha3.Sum256(a[0]), sha3.Sum384(a[0]), sha3.Sum512(a[0])
			x5 := blake2s.Sum256(a[0])
			return Res{[][]byte{x1[:], x2[:], x3[:], x4[:], x5[:], sm3.Sm3Sum(a[0])}, 0}
		}})
	return o
}()

// Key1 is a Pasta public key.
func Key1(c *mon.Ctx) []byte { return cp(matOf(PA).pub[c.Intn(nKeys)]) }
