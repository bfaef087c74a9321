// Package api describes the public interface of the library as a table of functions over
// byte strings, with a generator of valid and hostile arguments for each, so that monitors
// of memory, errors, concurrency and configurations can run over all of it.
package api

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"

	oc "github.com/blocktree/go-owcrypt"

	"owverif/internal/mon"
	"owverif/internal/ref"
	"owverif/internal/sw"
)

// The key types.
const (
	K1  = oc.ECC_CURVE_SECP256K1
	R1  = oc.ECC_CURVE_SECP256R1
	SM2 = oc.ECC_CURVE_SM2_STANDARD
	EDN = oc.ECC_CURVE_ED25519_NORMAL
	ED  = oc.ECC_CURVE_ED25519
	X   = oc.ECC_CURVE_X25519
	CS  = oc.ECC_CURVE_CURVE25519_SHA256
	NUL = oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL
	AUG = oc.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
	PA  = oc.ECC_CURVE_PASTA
)

// Types lists them.
var Types = []uint32{K1, R1, SM2, EDN, ED, X, CS, NUL, AUG, PA}

// Alloc makes the destinations that some functions of the sub-packages write to.
var Alloc = func(n int) []byte { return make([]byte, n) }

// Res is the outcome of a call: its byte strings and its code (booleans are 0 or 1).
type Res struct {
	Out  [][]byte
	Code uint16
}

// String is a digest of the outcome.
func (r Res) String() string {
	s := fmt.Sprintf("%04x", r.Code)
	for _, o := range r.Out {
		if o == nil {
			s += " nil"
		} else {
			h := sha256.Sum256(o)
			s += fmt.Sprintf(" %d:%x", len(o), h[:10])
		}
	}
	return s
}

// Eq compares outcomes.
func (r Res) Eq(q Res) bool {
	if r.Code != q.Code || len(r.Out) != len(q.Out) {
		return false
	}
	for i := range r.Out {
		if string(r.Out[i]) != string(q.Out[i]) || (r.Out[i] == nil) != (q.Out[i] == nil) {
			return false
		}
	}
	return true
}

// Copy is a deep copy.
func (r Res) Copy() Res {
	q := Res{Code: r.Code}
	for _, o := range r.Out {
		if o == nil {
			q.Out = append(q.Out, nil)
		} else {
			q.Out = append(q.Out, append([]byte{}, o...))
		}
	}
	return q
}

// Func is a function of the interface.
type Func struct {
	Name   string
	Top    bool // of the top-level package
	Random bool // draws randomness
	Fixed  bool // takes arrays, so that the lengths of the arguments are fixed
	Slow   int  // relative cost, 1 for most
	Gen    func(c *mon.Ctx, call *Call)
	Do     func(a [][]byte, t uint32, n int) Res
	// Check is the form of the outcome: a failed call gives no output.
	Check func(call *Call, r Res) string
}

// Call is one call.
type Call struct {
	F     *Func
	A     [][]byte
	T     uint32
	N     int
	Valid bool // the arguments were not tampered with
}

// Run performs it.
func (k *Call) Run() Res { return k.F.Do(k.A, k.T, k.N) }

// Label names it.
func (k *Call) Label() string {
	return fmt.Sprintf("%s(type %08x, n %d)", k.F.Name, k.T, k.N)
}

// Show writes it out.
func (k *Call) Show() string {
	s := k.Label()
	for _, a := range k.A {
		s += " " + mon.Hex(a)
	}
	return s
}

// Clone copies the arguments into slices of their own without spare capacity.
func (k *Call) Clone() *Call {
	q := *k
	q.A = nil
	for _, a := range k.A {
		if a == nil {
			q.A = append(q.A, nil)
		} else {
			b := make([]byte, len(a))
			copy(b, a)
			q.A = append(q.A, b)
		}
	}
	return &q
}

// WithRand runs f with the given source of randomness.
func WithRand(label string, f func()) {
	old := rand.Reader
	rand.Reader = io.Reader(mon.NewRand(label))
	defer func() { rand.Reader = old }()
	f()
}

// ---------------------------------------------------------------------------
// material

type mat struct {
	pri, pub [][]byte
	msg      [][]byte
	sig      map[[2]int][]byte
}

var mats = map[uint32]*mat{}

// ID is an SM2 identity.
var ids = [][]byte{[]byte("1234567812345678"), []byte("a"), []byte("alice@example"), make([]byte, 100)}

const nKeys, nMsgs = 4, 4

func isSW(t uint32) bool  { return t == K1 || t == R1 || t == SM2 }
func isBLS(t uint32) bool { return t == NUL || t == AUG }
func isEd(t uint32) bool  { return t == EDN || t == ED || t == X || t == CS }

func order(t uint32) *big.Int {
	switch t {
	case K1:
		return ref.K1.N
	case R1:
		return ref.R1.N
	case SM2:
		return ref.SM2.N
	case PA:
		return ref.PQ
	case NUL, AUG:
		r, _ := new(big.Int).SetString("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001", 16)
		return r
	}
	return ref.L25
}

// Order is the order of the group of the type.
func Order(t uint32) *big.Int { return order(t) }

// BigEndian tells how the private keys of the type are written.
func BigEndian(t uint32) bool { return !isEd(t) }

// Gens and Signs name the functions of the sub-packages behind GenPubkey and Signature.
var (
	Gens  = map[uint32]string{EDN: "eddsa.CURVE25519_gen", ED: "eddsa.ED25519_gen", X: "eddsa.X25519_gen", CS: "eddsa.CURVE25519_sha256_gen", PA: "pasta.gen", NUL: "bls12_381.gen", AUG: "bls12_381.gen"}
	Signs = map[uint32]string{EDN: "eddsa.CURVE25519_sign", ED: "eddsa.ED25519_sign", X: "eddsa.X25519_sign", CS: "eddsa.CURVE25519_sha256_sign", PA: "pasta.sign"}
)

// Priv makes a private key of the type.
func Priv(c *mon.Rand, t uint32) []byte {
	switch t {
	case SM2:
		return mon.B32(c.Scalar(new(big.Int).Sub(order(t), big.NewInt(1))), 32)
	case K1, R1, NUL, AUG:
		return mon.B32(c.Scalar(order(t)), 32)
	case PA:
		return mon.B32(c.Scalar(new(big.Int).Lsh(big.NewInt(1), 254)), 32)
	case ED:
		return mon.LE(c.Scalar(ref.L25), 32)
	}
	return c.Bytes(32)
}

// Msg makes a message for the type.
func Msg(c *mon.Rand, t uint32) []byte {
	switch t {
	case K1, R1, SM2:
		return c.Bytes(32)
	case PA:
		return Mina(c)
	}
	return c.Bytes(1 + c.Len(300))
}

// Mina makes a message of the Mina scheme.
func Mina(c *mon.Rand) []byte {
	var m ref.MinaMsg
	for i := c.Intn(5); i >= 0; i-- {
		m.Prefix = append(m.Prefix, c.Big(ref.PP))
	}
	for i := c.Intn(5); i >= 0; i-- {
		m.Suffix = append(m.Suffix, c.Big(ref.PP))
	}
	m.IV = ref.MinaTestnet
	return m.JSON()
}

var renewed string

// Renew forgets the pooled keys, messages and signatures; the next ones depend on the label.
func Renew(label string) {
	renewed = label
	mats = map[uint32]*mat{}
	kas = map[[2]int]*ka{}
}

func matOf(t uint32) *mat {
	if m, ok := mats[t]; ok {
		return m
	}
	m := &mat{sig: map[[2]int][]byte{}}
	mats[t] = m
	r := mon.NewRand(fmt.Sprintf("material|%x%s", t, renewed))
	WithRand(fmt.Sprintf("material reader|%x%s", t, renewed), func() {
		for i := 0; i < nKeys; i++ {
			pri := Priv(r, t)
			pub, _ := oc.GenPubkey(append([]byte{}, pri...), t)
			m.pri = append(m.pri, pri)
			m.pub = append(m.pub, pub)
		}
		for i := 0; i < nMsgs; i++ {
			m.msg = append(m.msg, Msg(r, t))
		}
	})
	return m
}

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// sigOf signs message j with key i (SM2 under the identity j).
func sigOf(t uint32, i, j int) []byte {
	m := matOf(t)
	if s, ok := m.sig[[2]int{i, j}]; ok {
		return cp(s)
	}
	WithRand(fmt.Sprintf("material sig|%x|%d|%d%s", t, i, j, renewed), func() {
		s, v, _ := oc.Signature(cp(m.pri[i]), cp(ids[j]), cp(m.msg[j]), t)
		if isSW(t) && s != nil {
			s = append(s[:len(s):len(s)], v)
		}
		if s == nil {
			panic(fmt.Sprintf("no signature of type %08x", t))
		}
		m.sig[[2]int{i, j}] = s
	})
	return cp(m.sig[[2]int{i, j}])
}

// Sig is a pooled signature without the recovery byte.
func Sig(t uint32, i, j int) []byte {
	s := sigOf(t, i, j)
	if isSW(t) && len(s) == 65 {
		s = s[:64:64]
	}
	return s
}

// Key is a pooled key.
func Key(t uint32, i int) (pri, pub []byte) { m := matOf(t); return cp(m.pri[i]), cp(m.pub[i]) }

// MsgOf is a pooled message, ID its identity.
func MsgOf(t uint32, j int) []byte { return cp(matOf(t).msg[j]) }

// ID is a pooled identity.
func ID(j int) []byte { return cp(ids[j]) }

// pointOf is a point of the type in one of its encodings.
func pointOf(c *mon.Ctx, t uint32) []byte {
	p := cp(matOf(t).pub[c.Intn(nKeys)])
	if (isSW(t) || t == PA) && c.Intn(2) == 0 {
		var cv *ref.Curve
		switch t {
		case K1:
			cv = ref.K1
		case R1:
			cv = ref.R1
		case SM2:
			cv = ref.SM2
		default:
			cv = ref.Pallas
		}
		x := c.SmallX(cv.P)
		for {
			if q, ok := cv.Lift(x, uint(c.Intn(2))); ok {
				p = append(mon.B32(q.X, 32), mon.B32(q.Y, 32)...)
				break
			}
			x = new(big.Int).Add(x, big.NewInt(1))
			x.Mod(x, cv.P)
		}
	}
	if isSW(t) || t == PA {
		switch c.Intn(4) {
		case 0:
			return oc.PointCompress(p, t)
		case 1:
			return append([]byte{4}, p...)
		}
	}
	return p
}

func scalarOf(c *mon.Ctx, t uint32) []byte {
	if c.Intn(6) == 0 {
		return c.Bytes(32)
	}
	if isEd(t) {
		return mon.LE(c.Scalar(order(t)), 32)
	}
	return mon.B32(c.Scalar(order(t)), 32)
}

// ---------------------------------------------------------------------------
// hostile arguments

var lens = []int{0, 1, 2, 8, 15, 16, 17, 20, 24, 28, 31, 32, 33, 47, 48, 49, 55, 56, 63, 64, 65, 66, 71, 72, 73, 95, 96, 97, 98, 99, 127, 128, 129, 135, 136, 137, 143, 144, 191, 192, 193, 255, 256, 257, 287, 288, 575, 576, 577, 1000, 4096, 8191, 8192, 8193, 65535, 65536, 70000}

// RandLen is a length near some size that matters.
func RandLen(c *mon.Ctx) int {
	if c.Intn(4) == 0 {
		return c.Intn(140)
	}
	k := c.Intn(len(lens))
	if c.Intn(5) > 0 {
		k = c.Intn(42)
	}
	return lens[k]
}

// Hostile is a value to give in place of a.
func Hostile(c *mon.Ctx, a []byte, others [][]byte) []byte {
	switch c.Intn(14) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2, 3:
		return c.Bytes(RandLen(c))
	case 4, 5:
		if a != nil {
			return sw.Mutate(c, a)
		}
	case 6:
		return cp(a[:c.Intn(len(a)+1)])
	case 7:
		return append(cp(a), c.Bytes(1+c.Intn(40))...)
	case 8:
		b := make([]byte, len(a))
		v := byte(255 * c.Intn(2))
		for i := range b {
			b[i] = v
		}
		return b
	case 9:
		if len(others) > 0 {
			return cp(others[c.Intn(len(others))])
		}
	case 10: // a key, signature, message or point of another type
		t := Types[c.Intn(len(Types))]
		m := matOf(t)
		switch c.Intn(4) {
		case 0:
			return cp(m.pri[c.Intn(nKeys)])
		case 1:
			return cp(m.pub[c.Intn(nKeys)])
		case 2:
			return cp(m.msg[c.Intn(nMsgs)])
		}
		return sigOf(t, c.Intn(nKeys), c.Intn(nMsgs))
	case 11: // a special number in the same length
		if len(a) >= 8 {
			b := make([]byte, len(a))
			if len(a)%32 == 0 {
				for i := 0; i < len(a); i += 32 {
					copy(b[i:], special(c))
				}
				if c.Bool() {
					k := 32 * c.Intn(len(a)/32)
					copy(b[k:], a[k:k+32])
				}
			} else {
				copy(b, a)
				k := c.Intn(len(a))
				for i := k; i < len(b); i++ {
					b[i] = 0
				}
			}
			return b
		}
		return c.Bytes(c.Intn(9))
	case 12: // first byte changed: prefixes and flags
		if len(a) > 0 {
			b := cp(a)
			b[0] = []byte{0, 1, 2, 3, 4, 5, 6, 7, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0xff}[c.Intn(16)] ^ byte(c.Intn(2))*(b[0]&31)
			return b
		}
	}
	if len(a) > 0 && a[0] == '{' {
		return BadJSON(c, a)
	}
	return c.Bytes(len(a))
}

func special(c *mon.Ctx) []byte {
	mods := []*big.Int{ref.K1.P, ref.K1.N, ref.R1.P, ref.R1.N, ref.SM2.P, ref.SM2.N, ref.PP, ref.PQ, ref.P25, ref.L25, order(NUL), sw.Two256}
	v := new(big.Int).Add(mods[c.Intn(len(mods))], big.NewInt(int64(c.Intn(5)-3)))
	v.Mod(v, sw.Two256)
	if c.Intn(3) == 0 {
		return mon.LE(v, 32)
	}
	return mon.B32(v, 32)
}

// BadJSON is a broken or unusual variant of a message.
func BadJSON(c *mon.Ctx, a []byte) []byte {
	elem := func() string {
		return []string{"[0,0,0,0]", "[1,2,3]", "[1,2,3,4,5]", "[]", "null", "0", "-1", "\"x\"", "{}",
			"[-1,0,0,0]", "[1.5,0,0,0]", "[1e3,0,0,0]", "[18446744073709551615,18446744073709551615,18446744073709551615,18446744073709551615]",
			"[18446744073709551616,0,0,0]", "[\"1\",0,0,0]", "[null,null,null,null]", "[[0],0,0,0]", "true",
			"[10800000000000000000,11037532056220336128,0,4611686018427387904]"}[c.Intn(19)]
	}
	list := func(max int) string {
		s := "["
		for i := c.Intn(max + 1); i > 0; i-- {
			s += elem()
			if i > 1 {
				s += ","
			}
		}
		return s + "]"
	}
	switch c.Intn(7) {
	case 0:
		return sw.Mutate(c, a)
	case 1:
		n := 1 + c.Intn(20000)
		b := make([]byte, n)
		v := "[{\" 9"[c.Intn(5)]
		for i := range b {
			b[i] = v
		}
		return b
	case 2:
		return []byte([]string{"null", "{}", "[]", "0", "\"\"", "true", "{", "{\"transactionPrefix\":null}", "{\"transactionPrefix\":{}}", "{\"spongeIV\":[]}", "{\"spongeIV\":null}"}[c.Intn(11)])
	case 3: // many elements
		k := []int{1, 2, 3, 17, 200, 1500}[c.Intn(6)]
		s := "["
		for i := 0; i < k; i++ {
			if i > 0 {
				s += ","
			}
			s += "[1,2,3,4]"
		}
		s += "]"
		return []byte(fmt.Sprintf(`{"transactionPrefix":%s,"transactionSuffix":[],"spongeIV":[[0,0,0,0],[0,0,0,0],[0,0,0,0]]}`, s))
	}
	s := fmt.Sprintf(`{"transactionPrefix":%s,"transactionSuffix":%s,"spongeIV":%s`, list(4), list(4), list(4))
	if c.Bool() {
		s += fmt.Sprintf(`,"transactionPrefix":%s`, list(3))
	}
	if c.Intn(4) == 0 {
		s += `,"unknown":1`
	}
	return []byte(s + "}")
}

// Codes is a type code: sometimes supported, sometimes a neighbour, sometimes any.
func Code(c *mon.Ctx) uint32 {
	switch c.Intn(6) {
	case 0:
		return uint32(c.U64())
	case 1:
		return Types[c.Intn(len(Types))] ^ 1<<uint(c.Intn(32))
	case 2:
		return 0xECC00000 + uint32(c.Intn(64))
	case 3:
		return 0xA0000000 + uint32(c.Intn(24))
	case 4:
		return 0x50505050 + uint32(c.Intn(5)) - 1
	}
	return Types[c.Intn(len(Types))]
}

// Make generates a call. With hostile set, some of its arguments are tampered with.
func Make(c *mon.Ctx, f *Func, hostile bool) *Call {
	k := &Call{F: f, Valid: true}
	f.Gen(c, k)
	if hostile {
		k.Valid = false
		m := 1 + c.Intn(2)
		if c.Intn(8) == 0 {
			m = len(k.A)
		}
		if c.Intn(10) == 0 {
			k.T = Code(c)
			m = c.Intn(2)
		}
		for ; m > 0 && len(k.A) > 0; m-- {
			i := c.Intn(len(k.A))
			h := Hostile(c, k.A[i], k.A)
			if f.Fixed {
				b := make([]byte, len(k.A[i]))
				copy(b, h)
				h = b
			}
			k.A[i] = h
		}
	}
	return k
}

// Pick chooses a function, the slow ones less often.
func Pick(c *mon.Ctx, fs []*Func) *Func {
	for {
		f := fs[c.Intn(len(fs))]
		if f.Slow <= 1 || c.Intn(f.Slow) == 0 {
			return f
		}
	}
}

// Tops are the functions of the top-level package.
func Tops() (o []*Func) {
	for _, f := range Funcs {
		if f.Top {
			o = append(o, f)
		}
	}
	return
}

// ByName finds a function.
func ByName(n string) *Func {
	for _, f := range Funcs {
		if f.Name == n {
			return f
		}
	}
	panic("no function " + n)
}

// Digest of arguments, for traces.
func (k *Call) Digest() string {
	h := sha256.New()
	for _, a := range k.A {
		var l [8]byte
		binary.LittleEndian.PutUint64(l[:], uint64(len(a)))
		h.Write(l[:])
		h.Write(a)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}
