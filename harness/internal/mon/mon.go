// Package mon is the monitoring runtime shared by all checks: it drives lists of
// cases addressed by (group, index), gives each case a PRNG that depends only on
// (seed, property, group, index), turns panics of the code under test into
// violations, watches the processor time that a case takes, and counts what was observed.
package mon

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Rand is a small deterministic generator (SHA-256 in counter mode).
type Rand struct {
	key [32]byte
	ctr uint64
	buf []byte
}

// NewRand returns the generator of the given label.
func NewRand(label string) *Rand { return &Rand{key: sha256.Sum256([]byte(label))} }

func (r *Rand) fill() {
	var b [40]byte
	copy(b[:], r.key[:])
	binary.LittleEndian.PutUint64(b[32:], r.ctr)
	r.ctr++
	h := sha256.Sum256(b[:])
	r.buf = h[:]
}

// Read fills p.
func (r *Rand) Read(p []byte) (int, error) {
	n := len(p)
	for len(p) > 0 {
		if len(r.buf) == 0 {
			r.fill()
		}
		k := copy(p, r.buf)
		p = p[k:]
		r.buf = r.buf[k:]
	}
	return n, nil
}

// Bytes returns n fresh bytes.
func (r *Rand) Bytes(n int) []byte { b := make([]byte, n); r.Read(b); return b }

// U64 returns 64 bits.
func (r *Rand) U64() uint64 { var b [8]byte; r.Read(b[:]); return binary.LittleEndian.Uint64(b[:]) }

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Bool is a coin.
func (r *Rand) Bool() bool { return r.U64()&1 == 1 }

// Big returns a uniform number in [0,n).
func (r *Rand) Big(n *big.Int) *big.Int {
	b := r.Bytes((n.BitLen()+7)/8 + 16)
	v := new(big.Int).SetBytes(b)
	return v.Mod(v, n)
}

// Scalar returns a number in [1,n-1]: uniform, small, near the top, of low weight, of a run
// of ones, or with zero bytes at an end.
func (r *Rand) Scalar(n *big.Int) *big.Int {
	one := big.NewInt(1)
	nm1 := new(big.Int).Sub(n, one)
	v := r.Scalar0(n)
	if v.Sign() == 0 {
		return nm1
	}
	return v
}

// Scalar0 is Scalar over [0,n-1].
func (r *Rand) Scalar0(n *big.Int) *big.Int {
	bl := n.BitLen()
	v := new(big.Int)
	switch r.Intn(10) {
	case 0:
		v.SetInt64(int64(r.Intn(20)))
	case 1:
		v.Sub(n, big.NewInt(int64(1+r.Intn(20))))
	case 2:
		v.SetBit(v, r.Intn(bl), 1)
		if r.Bool() {
			v.SetBit(v, r.Intn(bl), 1)
		}
	case 3:
		v.SetBit(v, 1+r.Intn(bl), 1)
		v.Sub(v, big.NewInt(1))
		if r.Bool() {
			v.Lsh(v, uint(r.Intn(bl)))
		}
	case 4:
		b := r.Bytes((bl + 7) / 8)
		z := r.Intn(len(b))
		for i := 0; i < z; i++ {
			b[i] = 0
		}
		v.SetBytes(b)
	case 5:
		b := r.Bytes((bl + 7) / 8)
		z := r.Intn(len(b))
		for i := z; i < len(b); i++ {
			b[i] = 0
		}
		v.SetBytes(b)
	default:
		v = r.Big(n)
	}
	return v.Mod(v, n)
}

// B32 is the n-byte big endian form.
func B32(v *big.Int, n int) []byte {
	b := make([]byte, n)
	return v.FillBytes(b)
}

// LE is the n-byte little endian form.
func LE(v *big.Int, n int) []byte {
	b := v.FillBytes(make([]byte, n))
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

// FromLE reads a little endian number.
func FromLE(b []byte) *big.Int {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(c)
}

// Len returns a message length from a mixture that favours block boundaries.
func (r *Rand) Len(max int) int {
	var n int
	switch r.Intn(6) {
	case 0:
		n = r.Intn(4)
	case 1:
		bl := []int{16, 32, 55, 56, 63, 64, 65, 72, 104, 111, 112, 119, 120, 127, 128, 129, 135, 136, 137, 143, 144, 167, 168, 169, 255, 256}
		n = bl[r.Intn(len(bl))] + r.Intn(3) - 1
	case 2:
		n = r.Intn(max + 1)
	default:
		n = r.Intn(100)
	}
	if n > max {
		n = max
	}
	if n < 0 {
		n = 0
	}
	return n
}

// Long is a length as of Len, or, now and then, one around a power of two up to 2^18.
func (r *Rand) Long(max int) int {
	if r.Intn(100) > 0 {
		return r.Len(max)
	}
	return 1<<uint(9+r.Intn(10)) + r.Intn(5) - 2
}

// Related is a message made of other values of the same call: one of them alone, at either end of m,
// repeated, joined to another, cut or with one bit changed.
func (r *Rand) Related(m []byte, of ...[]byte) []byte {
	one := func() []byte { return append([]byte{}, of[r.Intn(len(of))]...) }
	a := one()
	switch r.Intn(9) {
	case 0:
	case 1, 2:
		a = append(a, m...)
	case 3:
		a = append(append([]byte{}, m...), a...)
	case 4:
		a = append(a, a...)
	case 5:
		a = append(a, one()...)
	case 6:
		if len(a) > 1 {
			a = a[1:]
		}
	case 7:
		if len(a) > 1 {
			a = a[:len(a)-1]
		}
	case 8:
		if len(a) > 0 {
			a[r.Intn(len(a))] ^= 1 << uint(r.Intn(8))
		}
	}
	return a
}

// Related32 is the same for values of 32 bytes.
func (r *Rand) Related32(of ...[]byte) []byte {
	a := append(append([]byte{}, of[r.Intn(len(of))]...), make([]byte, 32)...)
	if n := len(a) - 32; n > 32 && r.Bool() {
		a = a[n-32:]
	}
	a = a[:32]
	switch r.Intn(4) {
	case 0:
		a[r.Intn(32)] ^= 1 << uint(r.Intn(8))
	case 1:
		for i := 0; i < 16; i++ {
			a[i], a[31-i] = a[31-i], a[i]
		}
	}
	return a
}

// Ctx is what a case gets.
type Ctx struct {
	*Rand
	Group string
	I     int // index in the group
	Tier  string
	s     *shard
}

type failure struct{ msg string }

// Failf reports a violation of the property and ends the case.
func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Sweep is the length that a case of a length sweep takes: its number, or in quick runs beyond 1100 one of about 25 lengths.
func (c *Ctx) Sweep() int {
	if c.I < 1100 || c.Tier != "quick" {
		return c.I
	}
	return 1100 + (c.I-1100)*25 + c.Intn(25)
}

// Eq fails unless got and want are the same bytes (a nil result never equals a non-nil one).
func (c *Ctx) Eq(what string, got, want []byte) {
	if string(got) != string(want) || (got == nil) != (want == nil) {
		c.Failf("%s: got %s, want %s", what, Hex(got), Hex(want))
	}
}

// Hex abbreviates.
func Hex(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 300 {
		return fmt.Sprintf("%x...(%d bytes)", b[:300], len(b))
	}
	return hex.EncodeToString(b) + fmt.Sprintf("(%d)", len(b))
}

// Seen counts one observed non-trivial event of the class, distinct by the given parts.
func (c *Ctx) Seen(class string, parts ...interface{}) {
	h := sha256.New()
	io.WriteString(h, class)
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			fmt.Fprintf(h, "|%d:", len(v))
			h.Write(v)
		case *big.Int:
			fmt.Fprintf(h, "|%x", v)
		default:
			fmt.Fprintf(h, "|%v", v)
		}
	}
	sum := h.Sum(nil)
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	c.s.res.Classes[class]++
	c.s.distinct[binary.LittleEndian.Uint64(sum)] = struct{}{}
}

// Sample records a written-out case.
func (c *Ctx) Sample(format string, a ...interface{}) {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	if c.s.samples[c.Group] < 1 {
		c.s.samples[c.Group]++
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.s.res.Samples = append(c.s.res.Samples, fmt.Sprintf("%s/%d: %s", c.Group, c.I, s))
	}
}

// Trace emits a line that is compared between builds.
func (c *Ctx) Trace(format string, a ...interface{}) {
	if c.s.trace == nil {
		return
	}
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	t := strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " | ")
	if len(t) > 1500 {
		t = fmt.Sprintf("%s... %x", t[:1400], sha256.Sum256([]byte(t)))
	}
	if _, err := fmt.Fprintf(c.s.trace, "%s/%d %s\n", c.Group, c.I, t); err != nil {
		fmt.Fprintln(os.Stderr, "trace:", err)
		os.Exit(3)
	}
}

// Group is a list of cases.
type Group struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	Fn       func(c *Ctx)
	Classes  []string // each must have been seen at least once over all shards
}

type violation struct {
	Group string
	Index int
	Msg   string
}

type result struct {
	Evaluations int
	Groups      map[string]int
	Classes     map[string]int
	Samples     []string
	Violations  []violation
	Required    []string
	Distinct    []string
	Done        bool
	Cut         bool
	Peak        int64
}

type shard struct {
	mu       sync.Mutex
	res      result
	distinct map[uint64]struct{}
	samples  map[string]int
	trace    io.Writer
}

type syncReader struct {
	mu sync.Mutex
	r  io.Reader
}

func (s *syncReader) Read(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.r.Read(p)
}

// SystemRand is the reader that the process started with.
var SystemRand = rand.Reader

// SetRand replaces the process's source of randomness; it is put back at the next case.
func SetRand(r io.Reader) { rand.Reader = &syncReader{r: r} }

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// KeepRand makes Main leave the system's source of randomness in place.
var KeepRand = false

// Main runs the groups as the command line says.
func Main(prop string, groups []Group) {
	tier := flag.String("tier", "quick", "")
	seed := flag.String("seed", "1", "")
	sh := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "")
	out := flag.String("out", "", "")
	crumb := flag.String("crumb", "", "")
	only := flag.String("only", "", "group/index, or a comma separated list of groups")
	traceF := flag.String("trace", "", "")
	hang := flag.Int("hang", 120, "seconds of processor time after which a case hangs")
	scale := flag.Float64("scale", 1, "factor on the number of cases")
	until := flag.Int64("until", 0, "Unix time at which no further case starts")
	flag.Parse()

	s := &shard{distinct: map[uint64]struct{}{}, samples: map[string]int{}}
	s.res.Groups = map[string]int{}
	s.res.Classes = map[string]int{}
	if *traceF != "" {
		f, err := os.Create(*traceF)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		defer f.Close()
		s.trace = f
	}
	var crumbF *os.File
	if *crumb != "" {
		crumbF, _ = os.Create(*crumb)
	}
	var cmu sync.Mutex
	cur := ""
	start := cpu()
	go func() {
		for {
			time.Sleep(time.Second)
			cmu.Lock()
			d, id := cpu()-start, cur
			cmu.Unlock()
			if id != "" && d > time.Duration(*hang)*time.Second {
				// all stacks go to standard error; the supervisor reads the marker
				fmt.Fprintf(os.Stderr, "HANG %s after %v of processor time\n", id, d)
				debug.SetTraceback("all")
				panic("monitored case made no progress")
			}
		}
	}()
	onlyGroup, onlyIdx := "", -1
	groupSet := map[string]bool{}
	if strings.Contains(*only, "/") {
		k := strings.LastIndex(*only, "/")
		onlyGroup = (*only)[:k]
		fmt.Sscan((*only)[k+1:], &onlyIdx)
	} else if *only != "" {
		for _, g := range strings.Split(*only, ",") {
			groupSet[g] = true
		}
	}
	count := make([]int, len(groups))
	for gi, g := range groups {
		if len(groupSet) > 0 && !groupSet[g.Name] {
			continue
		}
		n := g.Quick
		if *tier == "thorough" {
			n = g.Thorough
		}
		if *scale != 1 && n > 4 {
			n = int(float64(n)**scale + 0.5)
			if n < 4 {
				n = 4
			}
		}
		if onlyGroup != "" {
			n = 0
			if g.Name == onlyGroup && onlyIdx >= 0 {
				n = onlyIdx + 1
			}
		} else if n > 0 {
			s.res.Required = append(s.res.Required, g.Classes...)
		}
		count[gi] = n
	}
	k := 0
	// all groups advance together, so that a run that is cut short has covered a part of each
	const slices = 64
loop:
	for sl := 0; sl < slices; sl++ {
		for gi, g := range groups {
			n := count[gi]
			for i := n * sl / slices; i < n*(sl+1)/slices; i++ {
				k++
				if onlyGroup != "" {
					if g.Name != onlyGroup || i != onlyIdx {
						continue
					}
				} else if k%*of != *sh {
					continue
				}
				if *until > 0 && time.Now().Unix() > *until {
					s.res.Cut = true
					break loop
				}
				id := fmt.Sprintf("%s/%d", g.Name, i)
				if crumbF != nil {
					crumbF.WriteAt([]byte(fmt.Sprintf("%-120s", id)), 0)
				}
				cmu.Lock()
				cur, start = id, cpu()
				cmu.Unlock()
				label := fmt.Sprintf("%s|%s|%s|%d", *seed, prop, g.Name, i)
				c := &Ctx{Rand: NewRand(label), Group: g.Name, I: i, Tier: *tier, s: s}
				if !KeepRand {
					rand.Reader = &syncReader{r: NewRand("reader|" + label)}
				}
				if msg, bad := run(g.Fn, c); bad {
					s.mu.Lock()
					s.res.Violations = append(s.res.Violations, violation{g.Name, i, msg})
					s.mu.Unlock()
					if len(s.res.Violations) >= 3 {
						break loop
					}
				}
				s.mu.Lock()
				s.res.Evaluations++
				s.res.Groups[g.Name]++
				s.mu.Unlock()
			}
		}
	}
	cmu.Lock()
	cur = ""
	cmu.Unlock()
	rand.Reader = SystemRand
	for d := range s.distinct {
		s.res.Distinct = append(s.res.Distinct, fmt.Sprintf("%016x", d))
	}
	sort.Strings(s.res.Distinct)
	s.res.Done = true
	b, _ := json.Marshal(&s.res)
	if *out != "" {
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	} else {
		s.res.Distinct = nil
		b, _ = json.MarshalIndent(&s.res, "", " ")
		fmt.Println(string(b))
	}
}

func run(fn func(*Ctx), c *Ctx) (msg string, bad bool) {
	defer func() {
		if e := recover(); e != nil {
			bad = true
			if f, ok := e.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
			if len(msg) > 4000 {
				msg = msg[:4000]
			}
		}
	}()
	fn(c)
	return
}

// Try calls f and reports a panic as text.
func Try(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			if fl, ok := e.(failure); ok {
				panic(fl)
			}
			p = fmt.Sprintf("%v", e)
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

// SmallX returns a coordinate below p of a special shape.
func (r *Rand) SmallX(p *big.Int) *big.Int {
	switch r.Intn(4) {
	case 0:
		return big.NewInt(int64(r.Intn(300)))
	case 1:
		return new(big.Int).Sub(p, big.NewInt(int64(1+r.Intn(300))))
	}
	return r.Scalar0(p)
}
