// C26: calls never modify their inputs or share memory with later results.
package main

import (
	"fmt"
	"math/big"
	"unsafe"

	"crypto/ecdsa"

	oc "github.com/blocktree/go-owcrypt"
	"github.com/blocktree/go-owcrypt/blake2s"
	bls "github.com/blocktree/go-owcrypt/bls12_381"
	bb "github.com/blocktree/go-owcrypt/bls12_381/bls"
	"github.com/blocktree/go-owcrypt/pasta"
	"github.com/drand/kyber"

	"owverif/internal/api"
	"owverif/internal/mon"
	"owverif/internal/ref"
)

type span struct{ lo, hi uintptr }

func spanOf(b []byte) span {
	if cap(b) == 0 {
		return span{}
	}
	b = b[:1:cap(b)]
	p := uintptr(unsafe.Pointer(&b[0]))
	return span{p, p + uintptr(cap(b))}
}

func (s span) meets(t span) bool { return s.lo < t.hi && t.lo < s.hi }

// kept are earlier results, with the values they had.
type kept struct {
	r     api.Res
	was   api.Res
	label string
}

var ring [48]kept
var ringN int

// arena places the arguments in one buffer: in any order, adjacent, apart or (when they have
// the same bytes) at the same place, with spare capacity that runs into what follows.
func arena(c *mon.Ctx, args [][]byte) (buf []byte, out [][]byte, shape string) {
	total := 64
	for _, a := range args {
		total += len(a) + 64
	}
	buf = make([]byte, total)
	c.Read(buf)
	out = make([][]byte, len(args))
	perm := make([]int, len(args))
	for i := range perm {
		perm[i] = i
	}
	for i := range perm {
		j := i + c.Intn(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	at := c.Intn(32)
	pos := map[string]int{}
	for _, i := range perm {
		a := args[i]
		if a == nil {
			shape += "n"
			continue
		}
		if p, ok := pos[string(a)]; ok && len(a) > 0 && c.Intn(4) > 0 {
			shape += "="
			out[i] = buf[p : p+len(a)]
			continue
		}
		if c.Bool() {
			at += c.Intn(33)
		}
		copy(buf[at:], a)
		pos[string(a)] = at
		switch c.Intn(4) {
		case 0:
			out[i] = buf[at : at+len(a) : at+len(a)]
			shape += "e"
		case 1:
			e := at + len(a) + 1 + c.Intn(63)
			if e > len(buf) {
				e = len(buf)
			}
			out[i] = buf[at : at+len(a) : e]
			shape += "s"
		default:
			out[i] = buf[at : at+len(a)]
			shape += "c"
		}
		at += len(a)
	}
	return
}

func first(a, b []byte) int {
	for i := range a {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

func scribble(r api.Res) {
	for _, o := range r.Out {
		o = o[:cap(o)]
		for i := range o {
			o[i] ^= 0xa5
		}
	}
}

func run(c *mon.Ctx, k *api.Call, label string) (r api.Res) {
	api.WithRand(label, func() {
		if p := mon.Try(func() { r = k.Run() }); p != "" {
			if k.Valid || k.F.Top {
				c.Failf("%s panics: %s", k.Show(), p)
			}
			r = api.Res{Code: 0xdead} // the sub-packages may refuse with a panic
		}
	})
	return
}

func one(c *mon.Ctx, f *api.Func) {
	k := api.Make(c, f, c.Intn(3) == 0)
	label := fmt.Sprintf("c26|%s|%d|%x", c.Group, c.I, c.U64())
	plain := k.Clone()
	base := run(c, plain, label).Copy()

	buf, args, shape := arena(c, k.A)
	ak := *k
	ak.A = args
	snap := append([]byte{}, buf...)
	heads := make([][3]uintptr, len(args))
	for i, a := range args {
		heads[i] = [3]uintptr{spanOf(a).lo, uintptr(len(a)), uintptr(cap(a))}
	}
	r := run(c, &ak, label)
	if d := first(buf, snap); d >= 0 {
		where := "between or behind the arguments"
		for i, a := range args {
			s := spanOf(a)
			p := spanOf(buf).lo + uintptr(d)
			if len(a) > 0 && s.lo <= p && p < s.lo+uintptr(len(a)) {
				where = fmt.Sprintf("in argument %d", i)
			}
		}
		c.Failf("%s (layout %s) changed byte %d of the caller's buffer, %s", k.Show(), shape, d, where)
	}
	for i, a := range args {
		if heads[i] != [3]uintptr{spanOf(a).lo, uintptr(len(a)), uintptr(cap(a))} {
			c.Failf("%s replaced the slice of argument %d in the caller's list", k.Show(), i)
		}
	}
	if !r.Eq(base) {
		c.Failf("%s gives %s with arguments in one buffer (layout %s), but %s with separate ones", k.Show(), r, shape, base)
	}
	// no sharing
	as := spanOf(buf)
	for i, o := range r.Out {
		s := spanOf(o)
		if s.hi == 0 {
			continue
		}
		if s.meets(as) {
			c.Failf("%s: output %d lies in the caller's buffer", k.Show(), i)
		}
		for j := 0; j < i; j++ {
			if s.meets(spanOf(r.Out[j])) {
				c.Failf("%s: outputs %d and %d share memory", k.Show(), j, i)
			}
		}
		for _, old := range ring {
			for j, x := range old.r.Out {
				if s.meets(spanOf(x)) {
					c.Failf("%s: output %d shares memory with output %d of the earlier %s", k.Show(), i, j, old.label)
				}
			}
		}
	}
	// overwriting the arguments does not change the result, nor the reverse
	for i := range buf {
		buf[i] = ^buf[i]
	}
	if !r.Eq(base) {
		c.Failf("%s: the result changes when the arguments are overwritten", k.Show())
	}
	copy(buf, snap)
	scribble(r)
	if d := first(buf, snap); d >= 0 {
		c.Failf("%s: overwriting the result changes the arguments", k.Show())
	}
	if len(r.Out) > 0 {
		// with results overwritten, the same call gives the same again
		if again := run(c, &ak, label); !again.Eq(base) {
			c.Failf("%s gives %s after its earlier result was overwritten, and %s before", k.Show(), again, base)
		}
	}
	for i := range ring {
		old := &ring[i]
		if !old.r.Eq(old.was) {
			c.Failf("%s changed the result of the earlier %s", k.Show(), old.label)
		}
	}
	ring[ringN%len(ring)] = kept{r, r.Copy(), k.Label()}
	ringN++
	if k.Valid {
		c.Seen("valid "+f.Name, k.T, k.Digest(), shape)
	} else {
		c.Seen("hostile", f.Name, k.T, k.Digest(), shape)
	}
	c.Sample("%s layout %s -> %s", k.Label(), shape, base)
}

// ---------------------------------------------------------------------------
// objects

func g1(c *mon.Ctx) *bb.PointG1 {
	g := bb.NewG1()
	p := g.New()
	g.MulScalar(p, g.One(), c.Scalar0(g.Q()))
	if c.Bool() {
		g.Affine(p)
	}
	return p
}

func g2(c *mon.Ctx) *bb.PointG2 {
	g := bb.NewG2(nil)
	p := g.New()
	g.MulScalar(p, g.One(), c.Scalar0(g.Q()))
	if c.Bool() {
		g.Affine(p)
	}
	return p
}

func same(c *mon.Ctx, what string, ok bool) {
	if !ok {
		c.Failf("%s changed its operand", what)
	}
}

func objG1(c *mon.Ctx) {
	g := bb.NewG1()
	p, q := g1(c), g1(c)
	p0, q0 := *p, *q
	e := c.Scalar0(g.Q())
	e0 := new(big.Int).Set(e)
	chk := func(w string) {
		same(c, "G1."+w, *p == p0 && *q == q0 && e.Cmp(e0) == 0)
		c.Seen("G1", w, e0, p0, q0)
	}
	r := g.New()
	g.Add(r, p, q)
	chk("Add")
	g.Double(r, p)
	chk("Double")
	g.Neg(r, p)
	chk("Neg")
	g.Sub(r, p, q)
	chk("Sub")
	g.MulScalar(r, p, e)
	chk("MulScalar")
	g.MulByCofactor(r, p)
	chk("MulByCofactor")
	g.Equal(p, q)
	chk("Equal")
	g.IsZero(p)
	g.IsOnCurve(p)
	g.IsAffine(p)
	g.InCorrectSubgroup(p)
	chk("predicates")
	r.Set(p)
	g.Double(r, r)
	chk("Set")
	r = g.Copy(g.New(), p)
	g.Double(r, r)
	chk("Copy")
	// constants are fresh
	o := g.One()
	g.Double(o, o)
	z := g.Zero()
	g.Add(z, z, p)
	g.Q().SetInt64(5)
	if g.Equal(g.One(), o) || !g.IsZero(g.Zero()) || g.Q().BitLen() != 255 {
		c.Failf("G1 constants are shared")
	}
	n := 1 + c.Intn(5)
	pts := make([]*bb.PointG1, n, n+2)
	var pw []*big.Int
	var was []bb.PointG1
	var wasE []string
	for i := range pts {
		pts[i] = g1(c)
		pw = append(pw, c.Scalar0(g.Q()))
		was = append(was, *pts[i])
		wasE = append(wasE, pw[i].String())
	}
	pts0, pw0 := append([]*bb.PointG1{}, pts...), append([]*big.Int{}, pw...)
	g.MultiExp(r, pts, pw)
	for i := range pts {
		same(c, "G1.MultiExp", pts[i] == pts0[i] && pw[i] == pw0[i] && *pts[i] == was[i] && pw[i].String() == wasE[i])
	}
	c.Seen("G1", "MultiExp", wasE[0], n)
}

func objG2(c *mon.Ctx) {
	g := bb.NewG2(nil)
	p, q := g2(c), g2(c)
	p0, q0 := *p, *q
	e := c.Scalar0(g.Q())
	e0 := new(big.Int).Set(e)
	chk := func(w string) {
		same(c, "G2."+w, *p == p0 && *q == q0 && e.Cmp(e0) == 0)
		c.Seen("G2", w, e0, p0, q0)
	}
	r := g.New()
	g.Add(r, p, q)
	chk("Add")
	g.Double(r, p)
	chk("Double")
	g.Neg(r, p)
	chk("Neg")
	g.Sub(r, p, q)
	chk("Sub")
	g.MulScalar(r, p, e)
	chk("MulScalar")
	g.Equal(p, q)
	chk("Equal")
	g.IsZero(p)
	g.IsOnCurve(p)
	g.IsAffine(p)
	g.InCorrectSubgroup(p)
	chk("predicates")
	r.Set(p)
	g.Double(r, r)
	chk("Set")
	r = g.Copy(g.New(), p)
	g.Double(r, r)
	chk("Copy")
	o := g.One()
	g.Double(o, o)
	z := g.Zero()
	g.Add(z, z, p)
	g.Q().SetInt64(5)
	if g.Equal(g.One(), o) || !g.IsZero(g.Zero()) || g.Q().BitLen() != 255 {
		c.Failf("G2 constants are shared")
	}
	n := 1 + c.Intn(4)
	pts := make([]*bb.PointG2, n)
	var pw []*big.Int
	var was []bb.PointG2
	var wasE []string
	for i := range pts {
		pts[i] = g2(c)
		pw = append(pw, c.Scalar0(g.Q()))
		was = append(was, *pts[i])
		wasE = append(wasE, pw[i].String())
	}
	pts0, pw0 := append([]*bb.PointG2{}, pts...), append([]*big.Int{}, pw...)
	g.MultiExp(r, pts, pw)
	for i := range pts {
		same(c, "G2.MultiExp", pts[i] == pts0[i] && pw[i] == pw0[i] && *pts[i] == was[i] && pw[i].String() == wasE[i])
	}
	c.Seen("G2", "MultiExp", wasE[0], n)
}

func objPair(c *mon.Ctx) {
	e := bb.NewEngine()
	p, q, u, v := g1(c), g1(c), g2(c), g2(c)
	p0, q0, u0, v0 := *p, *q, *u, *v
	e.AddPair(p, u)
	e.AddPairInv(q, v)
	x := e.Result()
	e.Reset()
	e.AddPair(p, u)
	e.Check()
	same(c, "Engine", *p == p0 && *q == q0 && *u == u0 && *v == v0)
	e.Reset()
	gt := e.GT()
	x0 := *x
	y := gt.New()
	gt.Mul(y, x, x)
	gt.Square(y, x)
	gt.Exp(y, x, big.NewInt(77))
	gt.Inverse(y, x)
	gt.Add(y, x, x)
	gt.Sub(y, x, x)
	gt.Equal(y, x)
	gt.IsValid(x)
	gt.IsOne(x)
	gt.Copy(y, x)
	y.One()
	b := gt.ToBytes(x)
	b2 := append([]byte{}, b...)
	z, err := gt.FromBytes(b)
	if err != nil || string(b) != string(b2) || !z.Equal(x) {
		c.Failf("GT bytes")
	}
	for i := range b {
		b[i] = 0
	}
	same(c, "GT", *x == x0 && z.Equal(x))
	c.Seen("pairing", p0, u0, q0, v0)
}

func objKyber(c *mon.Ctx) {
	for i, mk := range []func() kyber.Point{func() kyber.Point { return bls.NullOwcryptG1() }, func() kyber.Point { return bls.NullOwcryptG2() }} {
		enc := func(p kyber.Point) string { b, _ := p.Clone().MarshalBinary(); return string(b) }
		pt := func() kyber.Point {
			var p kyber.Point
			if i == 0 {
				p = bls.NullOwcryptG1()
			} else {
				p = bls.NullOwcryptG2()
			}
			s := bls.NewScalar(mon.B32(c.Scalar(bb.NewG1().Q()), 32))
			return p.Mul(s, p.Clone().Base())
		}
		p, q := pt(), pt()
		sb := mon.B32(c.Scalar(bb.NewG1().Q()), 32)
		s := bls.NewScalar(sb)
		p0, q0 := enc(p), enc(q)
		s0, _ := s.MarshalBinary()
		chk := func(w string) {
			s1, _ := s.MarshalBinary()
			same(c, fmt.Sprintf("kyber G%d %s", i+1, w), enc(p) == p0 && enc(q) == q0 && string(s1) == string(s0))
			c.Seen("kyber", i, w, p0, q0)
		}
		r := mk().Add(p, q)
		chk("Add")
		r = r.Sub(p, q)
		chk("Sub")
		r = mk().Neg(p)
		chk("Neg")
		r = mk().Mul(s, p)
		chk("Mul")
		r = mk().Set(p)
		r.Add(r, q)
		chk("Set")
		r = p.Clone()
		r.Add(r, q)
		chk("Clone")
		p.Equal(q)
		_ = p.String()
		chk("Equal")
		b, _ := p.MarshalBinary()
		for k := range b {
			b[k] = 0
		}
		chk("MarshalBinary")
		in := []byte(q0)
		w := mk()
		if err := w.UnmarshalBinary(in); err != nil {
			c.Failf("%v", err)
		}
		if string(in) != q0 {
			c.Failf("UnmarshalBinary changed its input")
		}
		for k := range in {
			in[k] = 0
		}
		if enc(w) != q0 {
			c.Failf("UnmarshalBinary kept its input")
		}
		copyOf := append([]byte{}, sb...)
		t := bls.NewScalar(copyOf)
		for k := range copyOf {
			copyOf[k] = 0xff
		}
		tb, _ := t.MarshalBinary()
		if string(tb) != string(s0) {
			c.Failf("NewScalar kept its input")
		}
	}
}

func objGT(c *mon.Ctx) {
	s := bls.NewBLS12381Suite()
	g := func() kyber.Point {
		k := s.G1().Point()
		k = k.Mul(bls.NewScalar(mon.B32(c.Scalar(bb.NewG1().Q()), 32)), nil)
		return s.Pair(k, s.G2().Point().Base())
	}
	enc := func(p kyber.Point) string { b, _ := p.MarshalBinary(); return string(b) }
	p, q := g(), g()
	p0, q0 := enc(p), enc(q)
	chk := func(w string) {
		same(c, "target group "+w, enc(p) == p0 && enc(q) == q0)
		c.Seen("target group", w, p0, q0)
	}
	mk := func() kyber.Point { return s.GT().Point() }
	r := mk().Add(p, q)
	chk("Add")
	sum := enc(r)
	r.Sub(r, q)
	same(c, "target group Sub", enc(r) == p0)
	chk("Sub")
	for _, h := range []func(kyber.Point) kyber.Point{kyber.Point.Clone, func(p kyber.Point) kyber.Point { return mk().Set(p) }} {
		r = h(p)
		same(c, "target group copy", enc(r) == p0)
		r.Add(r, q)
		chk("copy, then Add")
		same(c, "target group copy", enc(r) == sum)
		r = h(p)
		r.Sub(r, r)
		chk("copy, then Sub")
		r = h(p)
		r.Set(q)
		chk("copy, then Set")
		r.Null()
		chk("copy, then Null")
		r = h(p)
		if err := r.UnmarshalBinary([]byte(q0)); err != nil {
			c.Failf("%v", err)
		}
		chk("copy, then UnmarshalBinary")
		// and the other way about
		r = h(p)
		p.Add(p, q)
		same(c, "copy of a target group element", enc(r) == p0)
		p.Sub(p, q)
		chk("copy, then change of the original")
	}
	b, _ := p.MarshalBinary()
	for k := range b {
		b[k] = 0
	}
	chk("MarshalBinary")
	in := []byte(q0)
	r = mk()
	if err := r.UnmarshalBinary(in); err != nil || string(in) != q0 {
		c.Failf("UnmarshalBinary: %v", err)
	}
	for k := range in {
		in[k] = 0
	}
	same(c, "target group UnmarshalBinary", enc(r) == q0)
	p.Equal(q)
	_ = p.String()
	chk("Equal")
}

func fld(c *mon.Ctx) (f pasta.Field) {
	b := mon.LE(c.Scalar0(ref.PP), 32)
	for i := range b {
		f[i/8] |= uint64(b[i]) << (8 * uint(i%8))
	}
	return
}

func objPasta(c *mon.Ctx) {
	// slices with spare capacity
	mk := func(n int) (s, all, was []pasta.Field) {
		all = make([]pasta.Field, n+4)
		for i := range all {
			all[i] = fld(c)
		}
		was = append([]pasta.Field{}, all...)
		return all[:n], all, was
	}
	eq := func(w string, a, b []pasta.Field) {
		for i := range a {
			if a[i] != b[i] {
				c.Failf("%s changed field %d of the caller's slice", w, i)
			}
		}
	}
	pre, preAll, preWas := mk(1 + c.Intn(5))
	suf, sufAll, sufWas := mk(1 + c.Intn(5))
	var m pasta.MinaMessage
	m.TransactionPrefix, m.TransactionSuffix = pre, suf
	for i := range m.SpongeIV {
		m.SpongeIV[i] = fld(c)
	}
	iv := m.SpongeIV
	_, pub := api.Key(api.PA, c.Intn(4))
	pub0 := append([]byte{}, pub...)
	h1 := pasta.MessageHash(pub, fld(c), m)
	h2 := pasta.MessageHash(pub, fld(c), m)
	for i := range h1 {
		h1[i] = 0
	}
	_ = h2
	eq("MessageHash", preAll, preWas)
	eq("MessageHash", sufAll, sufWas)
	if string(pub) != string(pub0) || iv != m.SpongeIV {
		c.Failf("MessageHash changed its operands")
	}
	b := m.ToBytes()
	eq("ToBytes", preAll, preWas)
	b0 := string(b)
	n, err := pasta.NewMinaMessage(b)
	if err != nil || string(b) != b0 {
		c.Failf("NewMinaMessage changed its input")
	}
	for i := range b {
		b[i] = 0
	}
	if string(n.ToBytes()) != b0 {
		c.Failf("NewMinaMessage kept its input")
	}
	c.Seen("pasta", "message", b0)
	// the sponge
	st := []pasta.Field{fld(c), fld(c), fld(c)}
	st0 := append([]pasta.Field{}, st...)
	ctx := pasta.Poseidon3WInit(st)
	in, inAll, inWas := mk(c.Intn(7))
	pasta.PoseidonUpdate(&ctx, in)
	ctx2 := ctx // the state is a part of it
	d := pasta.PoseidonDigest(&ctx)
	eq("Poseidon3WInit", st, st0)
	eq("PoseidonUpdate", inAll, inWas)
	x := pasta.Poseidon3WInit(st)
	pasta.PoseidonUpdate(&x, in)
	for i := range st {
		st[i] = pasta.Field{}
	}
	if string(pasta.PoseidonDigest(&x)) != string(d) {
		c.Failf("the sponge shares its state with the initial one or with another sponge")
	}
	_ = ctx2
	c.Seen("pasta", "sponge", d)
	// a pubkey object
	xb := append([]byte{}, pub...)
	key := &ecdsa.PublicKey{X: new(big.Int).SetBytes(xb[:32]), Y: new(big.Int).SetBytes(xb[32:])}
	x0, y0 := key.X.String(), key.Y.String()
	oc.ZA(key, []byte("id"))
	if key.X.String() != x0 || key.Y.String() != y0 {
		c.Failf("ZA changed the key")
	}
	// group elements
	var g, g2 pasta.Group
	pasta.GroupOne(&g)
	pasta.GroupDbl(&g2, g)
	gw, g2w := g, g2
	var r pasta.Group
	pasta.GroupAdd(&r, g, g2)
	pasta.GroupAdd(&r, g2, g2)
	pasta.GroupNegate(&r, g)
	if g != gw || g2 != g2w {
		c.Failf("group operations changed an operand")
	}
}

func objBlake(c *mon.Ctx) {
	key, salt, per := c.Bytes(32)[:c.Intn(33)], c.Bytes(8), c.Bytes(8)
	cfg := &blake2s.Config{Size: byte(c.Intn(33)), Key: key, Salt: salt, Person: per}
	if c.Intn(3) == 0 {
		cfg.Salt = nil
	}
	if c.Intn(3) == 0 {
		cfg.Tree = &blake2s.Tree{Fanout: byte(c.Intn(255)), MaxDepth: 3, LeafSize: uint32(c.U64()), NodeOffset: c.U64() >> 16, NodeDepth: 2, InnerHashSize: 32, IsLastNode: c.Bool()}
	}
	w := *cfg
	kw := string(key[:cap(key)])
	var tw blake2s.Tree
	if cfg.Tree != nil {
		tw = *cfg.Tree
	}
	h, err := blake2s.New(cfg)
	if err != nil {
		c.Failf("%v", err)
	}
	m := c.Bytes(c.Len(200))
	h.Write(m)
	d := string(h.Sum(nil))
	if w.Size != cfg.Size || string(w.Salt) != string(cfg.Salt) || kw != string(key[:cap(key)]) || w.Tree != cfg.Tree || cfg.Tree != nil && tw != *cfg.Tree {
		c.Failf("blake2s.New changed the configuration")
	}
	// the object does not depend on the configuration any more
	for _, b := range [][]byte{key, salt, per} {
		for i := range b {
			b[i]++
		}
	}
	cfg.Size = 5
	if cfg.Tree != nil {
		*cfg.Tree = blake2s.Tree{}
	}
	h.Reset()
	h.Write(m)
	if string(h.Sum(nil)) != d {
		c.Failf("a BLAKE2s object shares memory with its configuration")
	}
	c.Seen("blake2s", d)
}

func main() {
	var groups []mon.Group
	for _, f := range api.Funcs {
		f := f
		n := 700
		switch {
		case f.Slow > 1:
			n = 110
		case f.Name == "Verify", f.Name == "Signature":
			n = 1500
		case f.Name == "Hash":
			n = 3000
		case f.Name == "AggregateSignatures":
			n = 250
		}
		groups = append(groups, mon.Group{Name: f.Name, Quick: n, Thorough: n * 100, Classes: []string{"valid " + f.Name}, Fn: func(c *mon.Ctx) { one(c, f) }})
	}
	groups = append(groups,
		mon.Group{Name: "objects", Quick: 400, Thorough: 40000, Classes: []string{"G1", "G2", "pairing", "target group", "kyber", "pasta", "blake2s", "hostile"}, Fn: func(c *mon.Ctx) {
			objG1(c)
			objG2(c)
			if c.I%4 == 0 {
				objPair(c)
				objGT(c)
			}
			objKyber(c)
			objPasta(c)
			objBlake(c)
		}})
	mon.Main("C26", groups)
}
