// C33: what a call returns depends on its arguments and its randomness alone, not on earlier calls.
//
// A case is a set of calls that are alike in parts. The supervisor runs every case in several processes, which make
// the same calls in other orders with other calls between them, and compares the outcomes call by call. Within a
// process a repeated call is compared with its first outcome.
package main

import (
	"fmt"
	"os"

	ow "github.com/blocktree/go-owcrypt"

	"owverif/internal/api"
	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

var order = os.Getenv("OW_ORDER")

// buffers holds memory that successive calls reuse for their arguments, as callers do that keep a buffer for each.
var buffers [][]byte

func reuse(a [][]byte) {
	for i, v := range a {
		if v == nil || len(v) > 4096 {
			continue
		}
		for len(buffers) <= i {
			buffers = append(buffers, make([]byte, 4096))
		}
		copy(buffers[i], v)
		a[i] = buffers[i][:len(v):len(v)]
	}
}

func outcome(k *api.Call) (string, api.Res) {
	var r api.Res
	q := k.Clone()
	if order == "reversed" {
		reuse(q.A)
	}
	mon.SetRand(mon.NewRand("c33|" + k.Label() + k.Digest()))
	if p := mon.Try(func() { r = q.Run() }); p != "" {
		return "panic", r
	}
	s := r.String()
	kept := r.Copy()
	// nothing that the caller does to its arguments and results afterwards matters to later calls
	after := append([][]byte{}, r.Out...)
	if order != "reversed" {
		after = append(after, q.A...)
	}
	for _, o := range after {
		for i := range o {
			o[i] ^= 0xa5
		}
	}
	return s, kept
}

// variants of one argument that a careless fingerprint would take for the same.
func variant(c *mon.Ctx, k *api.Call, fs *api.Func) *api.Call {
	q := k.Clone()
	if len(q.A) == 0 || c.Intn(16) == 0 {
		switch c.Intn(4) {
		case 0:
			q.T = api.Types[c.Intn(len(api.Types))]
		case 1:
			q.T = api.Code(c)
		case 2:
			q.N += c.Intn(3) - 1
		default:
			q.N ^= 1 << uint(c.Intn(6))
		}
		if q.N < 0 || q.N > 70000 {
			q.N = k.N
		}
		return q
	}
	i := c.Intn(len(q.A))
	a := q.A[i]
	n := len(a)
	flip := func(at int, bit uint) {
		if at >= 0 && at < n {
			a[at] ^= 1 << (bit & 7)
		}
	}
	kind := c.Intn(20)
	if fs.Fixed && kind > 11 && kind != 16 && kind != 17 {
		kind = c.Intn(12)
	}
	switch kind {
	case 0, 1, 2:
		flip(n-1-c.Intn(3), uint(c.Intn(8)))
	case 3:
		flip(c.Intn(3), uint(c.Intn(8)))
	case 4, 5:
		if n > 0 {
			flip(c.Intn(n), uint(c.Intn(8)))
		}
	case 6:
		flip([]int{4, 7, 8, 15, 16, 23, 24, 31, 32, 47, 48, 63, 64}[c.Intn(13)], uint(c.Intn(8)))
	case 7: // the other half of the key
		if n > 1 {
			copy(a[n/2:], c.Bytes(n-n/2))
		}
	case 8:
		if n > 1 {
			copy(a[:n/2], c.Bytes(n/2))
		}
	case 9: // the middle
		if n > 3 {
			copy(a[n/4:3*n/4], c.Bytes(3*n/4-n/4))
		}
	case 10: // signs: of an Edwards key, of a compressed point
		switch c.Intn(3) {
		case 0:
			flip(31, 7)
		case 1:
			flip(0, 0)
		default:
			flip(0, 5)
		}
	case 11: // the opposite point, or number
		p := map[uint32]*ref.Curve{api.K1: ref.K1, api.R1: ref.R1, api.SM2: ref.SM2, api.PA: ref.Pallas}[q.T]
		switch {
		case p != nil && n == 64:
			y := mon.B32(p.P, 32)
			v := sw.Int(y)
			v.Sub(v, sw.Int(a[32:])).Mod(v, p.P)
			copy(a[32:], mon.B32(v, 32))
		case p != nil && n == 32:
			v := sw.Int(mon.B32(p.N, 32))
			v.Sub(v, sw.Int(a)).Mod(v, p.N)
			copy(a, mon.B32(v, 32))
		case n > 0:
			for j := range a {
				a[j] = ^a[j]
			}
		}
	case 12:
		if n > 0 {
			q.A[i] = a[: n-1 : n-1]
		}
	case 13:
		q.A[i] = append(a, byte(c.Intn(2)*c.Intn(256)))
	case 14:
		q.A[i] = append([]byte{0}, a...)
	case 15:
		if n == 0 {
			q.A[i] = nil
			if a == nil {
				q.A[i] = []byte{}
			}
		} else {
			q.A[i] = [][]byte{nil, {}, make([]byte, n)}[c.Intn(3)]
		}
	case 16: // something else of the same kind
		o := api.Make(c, fs, false)
		if i < len(o.A) {
			q.A[i] = o.A[i]
		}
	case 17:
		j := c.Intn(len(q.A))
		if !fs.Fixed || len(q.A[j]) == n {
			q.A[i], q.A[j] = q.A[j], q.A[i]
		}
	case 18: // the same bytes, divided in another way
		if i+1 < len(q.A) {
			b := append(append([]byte{}, a...), q.A[i+1]...)
			at := n + []int{-1, 1, -8, 8, -16}[c.Intn(5)]
			if at >= 0 && at <= len(b) {
				q.A[i], q.A[i+1] = append([]byte{}, b[:at]...), append([]byte{}, b[at:]...)
			}
		}
	case 19:
		q.A[i] = api.Hostile(c, a, q.A)
	}
	return q
}

func id(k *api.Call) string { return k.Label() + k.Digest() + lens(k) }

// lens tells nil and empty arguments apart.
func lens(k *api.Call) string {
	s := ""
	for _, a := range k.A {
		s += fmt.Sprintf("%v%d,", a == nil, len(a))
	}
	return s
}

type history struct {
	c    *mon.Ctx
	all  map[string]string
	res  map[string]api.Res
	last string
}

func (h *history) call(k *api.Call) string {
	o, r := outcome(k)
	i := id(k)
	if w, ok := h.all[i]; ok && w != o {
		h.c.Failf("%s: %s when first called and %s after other calls, the last of which is %s", k.Show(), w, o, h.last)
	} else if ok {
		h.c.Seen("repeated/"+k.F.Name, i)
	}
	h.all[i] = o
	h.res[i] = r
	h.last = k.Show()
	return o
}

// together runs the calls in the order of this process and writes the outcomes to the trace in the order of the list.
func together(c *mon.Ctx, base *api.Call, list []*api.Call, between []*api.Call) map[string]api.Res {
	h := history{c, map[string]string{}, map[string]api.Res{}, "none"}
	out := map[string]string{}
	switch order {
	case "reversed":
		for j := len(list) - 1; j >= 0; j-- {
			if len(between) > 0 {
				h.call(between[j%len(between)])
			}
			out[id(list[j])] = h.call(list[j])
		}
	case "shuffled":
		r := mon.NewRand(fmt.Sprintf("c33 order|%s|%d", c.Group, c.I))
		perm := make([]int, len(list))
		for i := range perm {
			j := r.Intn(i + 1)
			perm[i] = perm[j]
			perm[j] = i
		}
		for _, j := range perm {
			out[id(list[j])] = h.call(list[j])
			if r.Intn(3) == 0 {
				h.call(list[perm[r.Intn(len(perm))]])
			}
		}
	default:
		for _, k := range list {
			if base != nil {
				h.call(base)
			}
			out[id(k)] = h.call(k)
		}
		if base != nil {
			h.call(base)
		}
	}
	for _, k := range list {
		c.Trace("%s %s -> %s", k.Label(), k.Digest(), out[id(k)])
		c.Seen("independent/"+k.F.Name, id(k))
	}
	return h.res
}

// set is a list of different calls.
type set struct {
	list []*api.Call
	have map[string]bool
}

func (s *set) add(name string, t uint32, n int, a ...[]byte) *api.Call {
	k := (&api.Call{F: api.ByName(name), A: a, T: t, N: n}).Clone()
	if s.have == nil {
		s.have = map[string]bool{}
	}
	if !s.have[id(k)] {
		s.have[id(k)] = true
		s.list = append(s.list, k)
	}
	return k
}

// relative is a private key that has something in common with k.
func relative(c *mon.Ctx, k []byte, t uint32) []byte {
	r := append([]byte{}, k...)
	n := api.Order(t)
	be := api.BigEndian(t)
	switch c.Intn(11) {
	case 0, 1, 2:
		v := sw.Int(r)
		if !be {
			v = mon.FromLE(r)
		}
		v.Neg(v).Mod(v, n)
		if be {
			return mon.B32(v, 32)
		}
		return mon.LE(v, 32)
	case 3:
		r[c.Intn(32)] ^= 1 << uint(c.Intn(8))
	case 4:
		r[0] ^= 1
	case 5:
		r[31] ^= 1
	case 6:
		copy(r[16:], c.Bytes(16))
	case 7:
		copy(r[:16], c.Bytes(16))
		r[0] &= 0x3f
	case 8:
		for i := range r {
			r[i] = k[31-i]
		}
	case 9:
		copy(r[8:24], c.Bytes(16))
	case 10:
		r[1+c.Intn(30)] = byte(c.Intn(256))
	}
	return r
}

// family makes genuine calls on keys that are alike, of schemes that may have something in common.
func family(c *mon.Ctx) {
	kin := [][]uint32{{api.K1, api.R1, api.SM2, api.PA}, {api.EDN, api.ED, api.X, api.CS}, {api.NUL, api.AUG}}[[]int{0, 0, 0, 1, 1, 2}[c.Intn(6)]]
	t := kin[c.Intn(len(kin))]
	ts := []uint32{t, t, t, kin[c.Intn(len(kin))], kin[c.Intn(len(kin))]}
	k := api.Priv(c.Rand, t)
	if t != api.CS && t != api.EDN && t != api.X {
		for c.Intn(3) > 0 && (api.BigEndian(t) && k[0] > 0x3f) {
			k = api.Priv(c.Rand, t)
		}
	}
	keys := [][]byte{k}
	nk := 4
	if t == api.NUL || t == api.AUG {
		nk = 2
	}
	for len(keys) < nk {
		keys = append(keys, relative(c, keys[c.Intn(len(keys))], t))
	}
	m := api.Msg(c.Rand, t)
	m2 := append([]byte{}, m...)
	if t == api.PA {
		m2 = api.Mina(c.Rand)
	} else {
		m2[c.Intn(len(m2))] ^= 1 << uint(c.Intn(8))
	}
	ident := c.Bytes(1 + c.Intn(40))
	ident2 := append([]byte{}, ident...)
	ident2[c.Intn(len(ident))] ^= 1
	pickID := func() []byte {
		return [][]byte{ident, ident, ident2, nil}[c.Intn(4)]
	}

	type signed struct {
		t          uint32
		k, id, msg []byte
		call, pub  *api.Call
	}
	var sigs []signed
	var s1 set
	for i, key := range keys {
		for j, u := range ts {
			if j > 0 && i > 0 && c.Intn(3) == 0 {
				continue
			}
			g := s1.add("GenPubkey", u, 0, key)
			x := signed{t: u, k: key, id: pickID(), msg: m, pub: g}
			if c.Intn(4) == 0 {
				x.msg = m2
			}
			x.call = s1.add("Signature", u, 0, x.k, x.id, x.msg)
			sigs = append(sigs, x)
			if c.Intn(3) == 0 {
				if f := api.Gens[u]; f != "" {
					s1.add(f, u, 0, key)
				}
				if f := api.Signs[u]; f != "" {
					s1.add(f, u, 0, key, x.msg)
				}
			}
		}
	}
	r1 := together(c, nil, s1.list, nil)

	// what the signers and others do with the public keys and signatures
	var s2 set
	genuine := map[string]bool{}
	var pubs, points [][]byte
	for _, x := range sigs {
		p, s := r1[id(x.pub)], r1[id(x.call)]
		if p.Code != ow.SUCCESS || s.Code != ow.SUCCESS {
			continue
		}
		v := s2.add("Verify", x.t, 0, p.Out[0], x.id, x.msg, s.Out[0])
		genuine[id(v)] = true
		c.Seen("genuine", id(v))
		for i := 0; i < 2; i++ {
			w := variant(c, v, v.F)
			s2.add("Verify", w.T, w.N, w.A...)
		}
		if c.Intn(3) == 0 {
			s2.add("Verify", x.t, 0, p.Out[0], pickID(), [][]byte{m, m2}[c.Intn(2)], s.Out[0])
		}
		if x.t == t {
			pubs = append(pubs, p.Out[0])
		}
		for _, q := range pubs {
			if c.Intn(3) == 0 {
				s2.add("Verify", x.t, 0, q, x.id, x.msg, s.Out[0])
			}
		}
		switch {
		case x.t == api.K1, x.t == api.R1, x.t == api.SM2:
			s2.add("RecoverPubkey", x.t, 0, append(append([]byte{}, s.Out[0]...), s.Out[1]...), x.msg)
			fallthrough
		case x.t == api.PA:
			points = append(points, p.Out[0])
			if d := ow.PointCompress(append([]byte{}, p.Out[0]...), x.t); len(d) == 33 {
				s2.add("PointDecompress", x.t, 0, d)
				s2.add("Point_mul", x.t, 0, d, keys[c.Intn(len(keys))])
				d[0] ^= 1
				s2.add("PointDecompress", x.t, 0, d)
				s2.add("Point_mul", x.t, 0, d, keys[c.Intn(len(keys))])
			}
			s2.add("PointCompress", x.t, 0, p.Out[0])
			s2.add("Point_add", x.t, 0, points[c.Intn(len(points))], p.Out[0])
			s2.add("Point_mulBaseG_add", x.t, 0, p.Out[0], keys[c.Intn(len(keys))])
			s2.add("Point_mulBaseG", x.t, 0, x.k)
		case x.t == api.ED:
			s2.add("Point_add", x.t, 0, pubs[c.Intn(len(pubs))], p.Out[0])
			s2.add("Point_mulBaseG_add", x.t, 0, p.Out[0], keys[c.Intn(len(keys))])
			s2.add("CURVE25519_convert_Ed_to_X", 0, 0, p.Out[0])
		case x.t == api.X:
			s2.add("CURVE25519_convert_X_to_Ed", 0, 0, p.Out[0])
		}
		if x.t == api.SM2 && c.Intn(2) == 0 {
			s2.add("Encryption", x.t, 0, p.Out[0], m)
			s2.add("ZA", x.t, 0, ident, p.Out[0])
		}
	}
	if len(s2.list) == 0 {
		return
	}
	r2 := together(c, nil, s2.list, nil)
	for _, v := range s2.list {
		if genuine[id(v)] && r2[id(v)].Code != ow.SUCCESS {
			c.Failf("%s: a genuine signature gives %04x", v.Show(), r2[id(v)].Code)
		}
	}
	c.Sample("%d calls on %d keys of type %08x", len(s1.list)+len(s2.list), len(keys), t)
}

func main() {
	var groups []mon.Group
	for _, f := range api.Funcs {
		f := f
		n := 24
		switch {
		case f.Slow > 2:
			n = 8
		case f.Slow == 2:
			n = 10
		case f.Name == "Signature", f.Name == "Verify", f.Name == "GenPubkey":
			n = 90
		case f.Top:
			n = 36
		}
		groups = append(groups, mon.Group{Name: f.Name, Quick: n, Thorough: n * 200, Classes: []string{"independent/" + f.Name, "repeated/" + f.Name}, Fn: func(c *mon.Ctx) {
			// what earlier cases have left behind is the same in all orders: use keys and messages of the case
			api.Renew(fmt.Sprintf("|%s|%d", c.Group, c.I))
			base := api.Make(c, f, c.Intn(8) == 0)
			list := []*api.Call{base}
			have := map[string]bool{id(base): true}
			for i := 0; i < 9; i++ {
				from := base
				if c.Intn(5) == 0 {
					from = list[c.Intn(len(list))]
				}
				k := variant(c, from, f)
				if !have[id(k)] {
					have[id(k)] = true
					list = append(list, k)
				}
			}
			between := []*api.Call{api.Make(c, f, false), api.Make(c, f, false), api.Make(c, f, false)}
			together(c, base, list, between)
			c.Sample("%s and %d calls like it", base.Label(), len(list)-1)
		}})
	}
	groups = append(groups, mon.Group{Name: "mixed", Quick: 160, Thorough: 30000, Classes: []string{"mixed"}, Fn: func(c *mon.Ctx) {
		// calls of all functions on related material
		api.Renew(fmt.Sprintf("|%s|%d", c.Group, c.I))
		var fs []*api.Func
		for i := 0; i < 6; i++ {
			fs = append(fs, api.Pick(c, api.Tops()))
		}
		t := api.Types[c.Intn(len(api.Types))]
		var list []*api.Call
		have := map[string]bool{}
		for i := 0; i < 24; i++ {
			f := fs[c.Intn(len(fs))]
			k := api.Make(c, f, c.Intn(6) == 0)
			if c.Intn(3) == 0 && len(list) > 0 {
				o := list[c.Intn(len(list))]
				k = variant(c, o, o.F)
			}
			if c.Intn(4) == 0 && k.F.Top {
				k.T = t
			}
			if !have[id(k)] {
				have[id(k)] = true
				list = append(list, k)
			}
		}
		together(c, nil, list, nil)
		c.Seen("mixed", c.I)
	}})
	groups = append(groups, mon.Group{Name: "family", Quick: 140, Thorough: 30000, Classes: []string{"genuine"}, Fn: family})
	mon.Main("C33", groups)
}
