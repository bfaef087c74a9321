// C31: no access outside of the memory of the arguments.
package main

import (
	"bytes"
	"fmt"
	"math/big"
	"runtime/debug"
	"syscall"
	"unsafe"

	bb "github.com/blocktree/go-owcrypt/bls12_381/bls"
	ew "github.com/blocktree/go-owcrypt/eddsa/edwards25519"

	"owverif/internal/api"
	"owverif/internal/mon"
)

const page = 4096

// arena is memory between two inaccessible pages.
type arena struct {
	all  []byte
	body []byte
	used []byte
	pat  byte
	ro   bool
}

var free = map[int][]*arena{}

func classOf(n int) int {
	switch {
	case n <= 2*page:
		return 2 * page
	case n <= 32*page:
		return 32 * page
	}
	return 512 * page
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func take(n int) *arena {
	k := classOf(n)
	if n > k {
		panic("an argument is too large for the arenas")
	}
	if l := free[k]; len(l) > 0 {
		a := l[len(l)-1]
		free[k] = l[:len(l)-1]
		return a
	}
	all, err := syscall.Mmap(-1, 0, k+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	must(err)
	must(syscall.Mprotect(all[:page], syscall.PROT_NONE))
	must(syscall.Mprotect(all[page+k:], syscall.PROT_NONE))
	return &arena{all: all, body: all[page : page+k : page+k]}
}

func (a *arena) give() {
	if a.ro {
		must(syscall.Mprotect(a.body, syscall.PROT_READ|syscall.PROT_WRITE))
		a.ro = false
	}
	k := len(a.body)
	a.used = nil
	free[k] = append(free[k], a)
}

// place gives n bytes at the end (or the start) of an arena, the rest of which holds a pattern.
func place(n int, end bool, pat byte) *arena {
	a := take(n)
	a.pat = pat
	k := len(a.body)
	// only the surroundings are filled: that is where a stray access goes
	if end {
		lo := k - n - 600
		if lo < 0 {
			lo = 0
		}
		fill(a.body[lo:k-n], pat)
		a.used = a.body[k-n : k : k]
	} else {
		hi := n + 600
		if hi > k {
			hi = k
		}
		fill(a.body[n:hi], pat)
		a.used = a.body[:n:n]
	}
	return a
}

func fill(b []byte, v byte) {
	for i := range b {
		b[i] = v + byte(i)*v
	}
}

// stray says whether the surroundings were written to.
func (a *arena) stray(end bool) bool {
	k, n := len(a.body), len(a.used)
	var s []byte
	if end {
		lo := k - n - 600
		if lo < 0 {
			lo = 0
		}
		s = a.body[lo : k-n]
	} else {
		hi := n + 600
		if hi > k {
			hi = k
		}
		s = a.body[n:hi]
	}
	w := make([]byte, len(s))
	fill(w, a.pat)
	return !bytes.Equal(s, w)
}

func (a *arena) protect() {
	must(syscall.Mprotect(a.body, syscall.PROT_READ))
	a.ro = true
}

// attempt runs f and tells a memory fault from an ordinary panic.
func attempt(f func()) (fault string, other string) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(interface{ Addr() uintptr }); ok && x.Addr() >= 1<<16 {
				fault = fmt.Sprintf("%v at %#x", e, x.Addr())
				return
			}
			other = fmt.Sprint(e)
		}
	}()
	f()
	return
}

func where(end bool) string {
	if end {
		return "end"
	}
	return "start"
}

// guarded runs the call alone on the heap and again on guarded arguments, and compares.
func guarded(c *mon.Ctx, k *api.Call, end bool) {
	label := fmt.Sprintf("guard|%s|%d", c.Group, c.I)
	var want api.Res
	q := k.Clone()
	api.Alloc = func(n int) []byte { return make([]byte, n) }
	var wp string
	api.WithRand(label, func() { _, wp = attempt(func() { want = q.Run().Copy() }) })

	var in, outs []*arena
	g := *k
	g.A = nil
	pat := byte(c.Intn(256)) | 1
	spare := c.Bool()
	for _, b := range k.A {
		if b == nil {
			g.A = append(g.A, nil)
			continue
		}
		a := place(len(b), end, pat)
		copy(a.used, b)
		in = append(in, a)
		if spare { // spare capacity, which is not to be read either: inaccessible behind the end of the page, or a pattern
			n := len(b)
			if end {
				g.A = append(g.A, a.all[page+len(a.body)-n:page+len(a.body):page+len(a.body)+1+c.Intn(page)])
			} else {
				g.A = append(g.A, a.body[:n:n+c.Intn(len(a.body)-n+1)])
			}
			continue
		}
		g.A = append(g.A, a.used)
	}
	for _, a := range in {
		a.protect()
	}
	api.Alloc = func(n int) []byte {
		a := place(n, end, pat)
		fill(a.used, 0xa5)
		outs = append(outs, a)
		return a.used
	}
	var got api.Res
	var fault, gp string
	api.WithRand(label, func() { fault, gp = attempt(func() { got = g.Run().Copy() }) })
	api.Alloc = func(n int) []byte { return make([]byte, n) }
	if fault != "" {
		for i, a := range in {
			fault += fmt.Sprintf("; argument %d is %d bytes at %#x", i, len(a.used), uintptr(unsafe.Pointer(&a.body[0]))+uintptr(cap(a.body)-len(a.body)))
		}
		c.Failf("%s with arguments at the %s of read-only pages: %s", k.Show(), where(end), fault)
	}
	for i, a := range outs {
		if a.stray(end) {
			c.Failf("%s wrote outside of its destination %d of %d bytes (at the %s of a page)", k.Show(), i, len(a.used), where(end))
		}
	}
	if (wp == "") != (gp == "") || wp == "" && !got.Eq(want) {
		c.Failf("%s depends on bytes outside of its arguments:\n  on the heap: %s %s\n  at the %s of a page: %s %s", k.Show(), want, wp, where(end), got, gp)
	}
	for _, a := range append(in, outs...) {
		a.give()
	}
	c.Seen("guarded at the "+where(end)+" "+k.F.Name, k.T, k.N, lensOf(k))
	if spare && len(in) > 0 {
		c.Seen("spare capacity at the "+where(end), k.F.Name, k.T, k.N, lensOf(k))
	}
	c.Sample("%s, arguments of %s bytes at the %s of pages", k.Label(), lensOf(k), where(end))
}

func lensOf(k *api.Call) string {
	s := ""
	for _, a := range k.A {
		if a == nil {
			s += "nil "
		} else {
			s += fmt.Sprint(len(a), " ")
		}
	}
	return s
}

// obj is room for a value of type T between guard pages.
func obj[T any](end bool, pat byte, keep *[]*arena) *T {
	var z T
	n := int(unsafe.Sizeof(z))
	a := place(n, end, pat)
	*keep = append(*keep, a)
	return (*T)(unsafe.Pointer(&a.used[0]))
}

func blsObjects(c *mon.Ctx, end bool) {
	pat := byte(c.Intn(256)) | 1
	var keep []*arena
	s1, s2 := c.Scalar0(bb.NewG1().Q()), c.Scalar0(bb.NewG1().Q())
	e := c.Scalar0(bb.NewG1().Q())
	dom := c.Bytes(20)
	run := func(g1 func() *bb.PointG1, g2 func() *bb.PointG2, gt func() *bb.E) (out [][]byte) {
		G, H := bb.NewG1(), bb.NewG2(nil)
		p, q, r := g1(), g1(), g1()
		G.MulScalar(p, G.One(), s1)
		G.MulScalar(q, G.One(), s2)
		G.Add(r, p, q)
		out = append(out, G.ToBytes(r))
		G.Double(r, r)
		G.Sub(r, r, p)
		G.Neg(r, r)
		G.MulScalar(r, r, e)
		out = append(out, []byte(fmt.Sprint(G.IsOnCurve(r), G.IsZero(r), G.Equal(p, q), G.InCorrectSubgroup(p), G.IsAffine(r))))
		out = append(out, G.ToUncompressed(r))
		t := g1()
		G.Copy(t, r)
		G.MultiExp(r, []*bb.PointG1{p, q, t}, []*big.Int{s1, s2, e})
		G.Affine(r)
		out = append(out, G.ToCompressed(r))
		u, v, w := g2(), g2(), g2()
		H.MulScalar(u, H.One(), s1)
		H.MulScalar(v, H.One(), s2)
		H.Add(w, u, v)
		out = append(out, H.ToBytes(w))
		H.Double(w, w)
		H.Sub(w, w, u)
		H.Neg(w, w)
		H.MulScalar(w, w, e)
		out = append(out, []byte(fmt.Sprint(H.IsOnCurve(w), H.IsZero(w), H.Equal(u, v), H.InCorrectSubgroup(u), H.IsAffine(w))))
		out = append(out, H.ToUncompressed(w))
		H.MultiExp(w, []*bb.PointG2{u, v}, []*big.Int{s1, e})
		out = append(out, H.ToCompressed(w))
		if c.I%4 == 0 {
			en := bb.NewEngine()
			en.AddPair(p, u)
			en.AddPairInv(r, v)
			x, y := gt(), gt()
			*x = *en.Result()
			T := bb.NewGT()
			T.Exp(y, x, big.NewInt(12345))
			T.Mul(y, y, x)
			T.Square(y, y)
			T.Inverse(y, y)
			T.Add(y, y, x)
			T.Sub(x, y, x)
			out = append(out, T.ToBytes(y), T.ToBytes(x))
			h, err := H.HashToCurve(dom, dom)
			if err == nil {
				out = append(out, H.ToBytes(h))
			}
		}
		return
	}
	want := run(func() *bb.PointG1 { return new(bb.PointG1) }, func() *bb.PointG2 { return new(bb.PointG2) }, func() *bb.E { return new(bb.E) })
	var got [][]byte
	fault, other := attempt(func() {
		got = run(func() *bb.PointG1 { return obj[bb.PointG1](end, pat, &keep) }, func() *bb.PointG2 { return obj[bb.PointG2](end, pat, &keep) }, func() *bb.E { return obj[bb.E](end, pat, &keep) })
	})
	finish(c, "BLS12-381", fault, other, want, got, keep, end)
}

func finish(c *mon.Ctx, what, fault, other string, want, got [][]byte, keep []*arena, end bool) {
	if fault != "" {
		c.Failf("operations on %s objects at the %s of pages: %s", what, where(end), fault)
	}
	if other != "" {
		c.Failf("operations on %s objects at the %s of pages panic: %s", what, where(end), other)
	}
	for _, a := range keep {
		if a.stray(end) {
			c.Failf("an operation on %s objects wrote outside of an object of %d bytes at the %s of a page", what, len(a.used), where(end))
		}
		a.give()
	}
	for i := range want {
		if !bytes.Equal(want[i], got[i]) {
			c.Failf("result %d of operations on %s objects depends on where they lie: %x, %x", i, what, want[i], got[i])
		}
	}
	c.Seen("objects of "+what+" at the "+where(end), fmt.Sprintf("%x", want[0]))
}

func edObjects(c *mon.Ctx, end bool) {
	pat := byte(c.Intn(256)) | 1
	var keep []*arena
	s, t := c.Bytes(32), c.Bytes(32)
	s[31] &= 15
	t[31] &= 15
	wide := c.Bytes(64)
	run := func(fe func() *ew.FieldElement, ex func() *ew.ExtendedGroupElement, pr func() *ew.ProjectiveGroupElement, co func() *ew.CompletedGroupElement, ca func() *ew.CachedGroupElement, b32 func() *[32]byte, b64 func() *[64]byte) (out [][]byte) {
		put := func(b *[32]byte) { out = append(out, append([]byte{}, b[:]...)) }
		a, b := b32(), b32()
		copy(a[:], s)
		copy(b[:], t)
		A := ex()
		ew.GeScalarMultBase(A, a)
		o := b32()
		A.ToBytes(o)
		put(o)
		B := ex()
		out = append(out, []byte(fmt.Sprint(B.FromBytes(o))))
		P := pr()
		ew.GeDoubleScalarMultVartime(P, a, A, b)
		P.ToBytes(o)
		put(o)
		C := co()
		A.Double(C)
		C.ToExtended(B)
		B.ToBytes(o)
		put(o)
		C.ToProjective(P)
		P.Double(C)
		C.ToProjective(P)
		P.ToBytes(o)
		put(o)
		A.ToCached(ca())
		A.ToProjective(P)
		w := b64()
		copy(w[:], wide)
		ew.ScReduce(o, w)
		put(o)
		ew.ScMulAdd(o, a, b, o)
		put(o)
		x, y, z := fe(), fe(), fe()
		ew.FeFromBytes(x, a)
		ew.FeFromBytes(y, b)
		ew.FeMul(z, x, y)
		ew.FeSquare(x, z)
		ew.FeSquare2(y, x)
		ew.FeInvert(z, y)
		ew.FeSub(x, z, y)
		ew.FeAdd(y, x, z)
		ew.FeNeg(y, y)
		ew.FeCMove(x, y, 1)
		ew.FeToBytes(o, x)
		put(o)
		out = append(out, []byte(fmt.Sprint(ew.FeIsNegative(x), ew.FeIsNonZero(x))))
		return
	}
	want := run(func() *ew.FieldElement { return new(ew.FieldElement) }, func() *ew.ExtendedGroupElement { return new(ew.ExtendedGroupElement) }, func() *ew.ProjectiveGroupElement { return new(ew.ProjectiveGroupElement) },
		func() *ew.CompletedGroupElement { return new(ew.CompletedGroupElement) }, func() *ew.CachedGroupElement { return new(ew.CachedGroupElement) }, func() *[32]byte { return new([32]byte) }, func() *[64]byte { return new([64]byte) })
	var got [][]byte
	fault, other := attempt(func() {
		got = run(func() *ew.FieldElement { return obj[ew.FieldElement](end, pat, &keep) }, func() *ew.ExtendedGroupElement { return obj[ew.ExtendedGroupElement](end, pat, &keep) }, func() *ew.ProjectiveGroupElement { return obj[ew.ProjectiveGroupElement](end, pat, &keep) },
			func() *ew.CompletedGroupElement { return obj[ew.CompletedGroupElement](end, pat, &keep) }, func() *ew.CachedGroupElement { return obj[ew.CachedGroupElement](end, pat, &keep) }, func() *[32]byte { return obj[[32]byte](end, pat, &keep) }, func() *[64]byte { return obj[[64]byte](end, pat, &keep) })
	})
	finish(c, "Edwards", fault, other, want, got, keep, end)
}

func main() {
	debug.SetPanicOnFault(true)
	req := []string{"spare capacity at the end", "spare capacity at the start"}
	for _, f := range api.Funcs {
		req = append(req, "guarded at the end "+f.Name, "guarded at the start "+f.Name)
	}
	mk := func(c *mon.Ctx, f *api.Func) *api.Call {
		k := api.Make(c, f, c.Intn(2) == 0)
		if !f.Fixed && len(k.A) > 0 && c.Intn(3) == 0 { // one argument of any length
			i := c.Intn(len(k.A))
			n := c.Intn(300)
			if c.Intn(4) == 0 {
				n = api.RandLen(c)
			}
			if l := len(k.A[i]); l > 2 && c.Bool() { // a little too short
				n = l - 1 - c.Intn(2)
			}
			b := c.Bytes(n)
			copy(b, k.A[i])
			k.A[i] = b
		}
		return k
	}
	n := len(api.Funcs)
	var xof []*api.Func
	for _, f := range api.Funcs {
		for _, p := range []string{"blake", "sm3", "sha3", "Hash", "Hmac", "sums", "ZA"} {
			if len(f.Name) >= len(p) && f.Name[:len(p)] == p {
				xof = append(xof, f)
				break
			}
		}
	}
	groups := []mon.Group{
		{Name: "guard", Quick: 150 * n, Thorough: 4000 * n, Classes: req, Fn: func(c *mon.Ctx) {
			f := api.Funcs[c.I%n]
			if f.Slow > 1 && c.I >= 6*n && c.Intn(2*f.Slow) > 0 {
				f = api.Pick(c, api.Funcs)
			}
			guarded(c, mk(c, f), c.I/n%2 == 0)
		}},
		// the functions that take messages: every length in turn
		{Name: "lengths", Quick: 600 * len(xof), Thorough: 9000 * len(xof), Fn: func(c *mon.Ctx) {
			f := xof[c.I%len(xof)]
			k := api.Make(c, f, false)
			l := c.I / len(xof)
			end := l%3 > 0
			if l >= 450 {
				l = c.Intn(450)
			}
			i := 0
			if len(k.A) > 1 && c.Bool() {
				i = 1
			}
			if f.Name == "ZA" || f.Name == "Hmac" && c.Bool() {
				i = 0
			}
			k.A[i] = c.Bytes(l)
			guarded(c, k, end)
		}},
		{Name: "objects", Quick: 240, Thorough: 40000, Classes: []string{"objects of BLS12-381 at the end", "objects of BLS12-381 at the start", "objects of Edwards at the end", "objects of Edwards at the start"}, Fn: func(c *mon.Ctx) {
			if c.I%6 == 0 {
				blsObjects(c, c.I/6%2 == 0)
			} else {
				edObjects(c, c.Bool())
			}
		}},
		// for the sanitized builds: arguments on the heap without spare capacity, and at odd places
		// of larger ones
		{Name: "heap", Quick: 50 * n, Thorough: 4000 * n, Classes: []string{"on the heap"}, Fn: func(c *mon.Ctx) {
			f := api.Funcs[c.I%n]
			if f.Slow > 1 && c.I >= 2*n && c.Intn(2*f.Slow) > 0 {
				f = api.Pick(c, api.Funcs)
			}
			k := mk(c, f)
			q := k.Clone()
			odd := c.Bool()
			if odd {
				for i, a := range q.A {
					if a == nil {
						continue
					}
					o := 1 + c.Intn(15)
					b := make([]byte, o+len(a))
					copy(b[o:], a)
					q.A[i] = b[o : o+len(a) : o+len(a)]
				}
			}
			var r, s api.Res
			label := fmt.Sprintf("heap|%d", c.I)
			var p1, p2 string
			api.WithRand(label, func() { _, p1 = attempt(func() { r = k.Run().Copy() }) })
			api.WithRand(label, func() { _, p2 = attempt(func() { s = q.Run().Copy() }) })
			if (p1 == "") != (p2 == "") || p1 == "" && !r.Eq(s) {
				c.Failf("%s depends on the alignment of its arguments: %s %s, %s %s", k.Show(), r, p1, s, p2)
			}
			c.Seen("on the heap", f.Name, k.T, k.N, lensOf(k), odd)
		}},
	}
	mon.Main("C31", groups)
}
