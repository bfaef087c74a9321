// C28: calls made at the same time give the results they give alone, without data races.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"owverif/internal/api"
	"owverif/internal/mon"
)

// source gives every goroutine bytes that depend only on the call it is making, so that a
// call that draws randomness has one right result whatever the other goroutines do. The map
// is complete before the goroutines are released and only read afterwards: the source adds
// no synchronisation that could hide a race.
type source struct {
	by      map[int64]*stream
	foreign atomic.Int64 // reads by goroutines that the monitor did not start
	mu      sync.Mutex
	other   *mon.Rand
}

type stream struct {
	r     *mon.Rand
	noise *mon.Rand
	level int
}

func gid() int64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	s := b[len("goroutine "):n]
	k := bytes.IndexByte(s, ' ')
	v, _ := strconv.ParseInt(string(s[:k]), 10, 64)
	return v
}

func (s *source) Read(p []byte) (int, error) {
	st := s.by[gid()]
	if st == nil {
		s.foreign.Add(1)
		s.mu.Lock()
		defer s.mu.Unlock()
		return s.other.Read(p)
	}
	st.perturb()
	st.r.Read(p)
	st.perturb()
	return len(p), nil
}

// perturb delays the goroutine in the middle of a call.
func (st *stream) perturb() {
	if st.level == 0 {
		return
	}
	switch st.noise.Intn(6) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(st.noise.Intn(60)) * time.Microsecond)
	case 3:
		for i := st.noise.Intn(5); i > 0; i-- {
			runtime.Gosched()
		}
	}
}

// W is one call as it is handed to another process.
type W struct {
	F string
	A [][]byte
	T uint32
	N int
	L string // label of its randomness
}

func (w *W) call() *api.Call { return &api.Call{F: api.ByName(w.F), A: w.A, T: w.T, N: w.N} }

// Out is the outcome of one.
type Out struct {
	R     api.Res
	P     string // panic
	S, E  time.Duration
	Alien bool
}

// sequential runs the calls alone.
func sequential(ws []*W) []Out {
	o := make([]Out, len(ws))
	for i, w := range ws {
		rand.Reader = mon.NewRand(w.L)
		o[i].P = mon.Try(func() { o[i].R = w.call().Run().Copy() })
	}
	return o
}

// concurrent runs the lists at the same time, one goroutine each.
func concurrent(lists [][]*W, noise string, level int) ([][]Out, *source) {
	s := &source{by: map[int64]*stream{}, other: mon.NewRand("other|" + noise)}
	rand.Reader = io.Reader(s)
	out := make([][]Out, len(lists))
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	var mu sync.Mutex
	t0 := time.Now()
	for g := range lists {
		g := g
		out[g] = make([]Out, len(lists[g]))
		ready.Add(1)
		done.Add(1)
		go func() {
			defer done.Done()
			st := &stream{noise: mon.NewRand(fmt.Sprintf("%s|%d", noise, g)), level: level}
			mu.Lock()
			s.by[gid()] = st
			mu.Unlock()
			ready.Done()
			<-start
			for i, w := range lists[g] {
				o := &out[g][i]
				st.r = mon.NewRand(w.L)
				st.perturb()
				k := w.call()
				o.S = time.Since(t0)
				o.P = mon.Try(func() { o.R = k.Run() })
				o.E = time.Since(t0)
			}
		}()
	}
	ready.Wait()
	close(start)
	done.Wait()
	return out, s
}

// compare judges what the goroutines saw.
func compare(c *mon.Ctx, lists [][]*W, want [][]Out, got [][]Out, foreign bool) {
	type iv struct {
		s, e time.Duration
		g, i int
	}
	var ivs []iv
	for g := range lists {
		for i, w := range lists[g] {
			a, b := want[g][i], got[g][i]
			ivs = append(ivs, iv{b.S, b.E, g, i})
			k := w.call()
			if k.F.Random && foreign {
				continue
			}
			if (a.P == "") != (b.P == "") || a.P == "" && !a.R.Eq(b.R) {
				c.Failf("%s\n  alone: %s %s\n  among %d goroutines: %s %s", k.Show(), a.R, a.P, len(lists), b.R, b.P)
			}
		}
	}
	for _, l := range lists {
		for _, w := range l {
			c.Seen("compared "+w.F, w.T, w.L)
		}
	}
	// which calls were under way at the same time
	sort.Slice(ivs, func(a, b int) bool { return ivs[a].s < ivs[b].s })
	over := map[[2]int]bool{}
	for a := range ivs {
		for b := a + 1; b < len(ivs) && ivs[b].s < ivs[a].e; b++ {
			if ivs[a].g != ivs[b].g {
				over[[2]int{ivs[a].g, ivs[a].i}] = true
				over[[2]int{ivs[b].g, ivs[b].i}] = true
				x, y := lists[ivs[a].g][ivs[a].i], lists[ivs[b].g][ivs[b].i]
				if x.F == y.F && x.T == y.T {
					c.Seen("same function at the same time", x.F, x.T)
				} else {
					c.Seen("two functions at the same time", x.F, x.T, y.F, y.T)
				}
			}
		}
	}
	order := ""
	sort.Slice(ivs, func(a, b int) bool { return ivs[a].e < ivs[b].e })
	for _, v := range ivs {
		order += fmt.Sprint(v.g, ".", v.i, " ")
		if over[[2]int{v.g, v.i}] {
			w := lists[v.g][v.i]
			c.Seen("overlapped "+w.F, w.T, w.L)
		}
	}
	c.Seen("schedule", order)
}

func makeCalls(c *mon.Ctx, f func() *api.Func, t func(*api.Call) bool, n int, tag string) []*W {
	var o []*W
	for tries := 0; len(o) < n; tries++ {
		k := api.Make(c, f(), c.Intn(8) == 0)
		if t != nil && !t(k) && tries < 40*n {
			continue
		}
		o = append(o, &W{k.F.Name, k.A, k.T, k.N, fmt.Sprintf("call|%s|%s|%d|%d", c.Group, tag, c.I, len(o))})
	}
	return o
}

func pick(c *mon.Ctx) *api.Func { return api.Pick(c, api.Funcs) }

// plan chooses what the goroutines do.
func plan(c *mon.Ctx, mode, ng, nc int) [][]*W {
	lists := make([][]*W, ng)
	switch mode {
	case 0: // everybody makes the same calls on the same slices in the same order
		l := makeCalls(c, func() *api.Func { return pick(c) }, nil, nc, "all")
		for g := range lists {
			lists[g] = l
		}
	case 1: // the same calls on the same slices, each in its own order
		l := makeCalls(c, func() *api.Func { return pick(c) }, nil, nc, "all")
		for g := range lists {
			lists[g] = append([]*W{}, l...)
			for i := len(l) - 1; i > 0; i-- {
				j := c.Intn(i + 1)
				lists[g][i], lists[g][j] = lists[g][j], lists[g][i]
			}
		}
	case 2: // one function, each goroutine with its own arguments
		f := pick(c)
		for g := range lists {
			lists[g] = makeCalls(c, func() *api.Func { return f }, nil, nc, fmt.Sprint(g))
		}
	case 3: // one key type, any functions
		t := api.Types[c.Intn(len(api.Types))]
		tops := api.Tops()
		for g := range lists {
			lists[g] = makeCalls(c, func() *api.Func { return api.Pick(c, tops) }, func(k *api.Call) bool { return k.T == t }, nc, fmt.Sprint(g))
		}
	default: // anything
		for g := range lists {
			lists[g] = makeCalls(c, func() *api.Func { return pick(c) }, nil, nc, fmt.Sprint(g))
		}
	}
	return lists
}

func main() {
	if os.Getenv("OWVERIF_COLD") != "" {
		cold()
		return
	}
	seq := func(lists [][]*W) [][]Out {
		var o [][]Out
		for _, l := range lists {
			o = append(o, sequential(l))
		}
		return o
	}
	var req []string
	for _, f := range api.Funcs {
		req = append(req, "compared "+f.Name)
	}
	req = append(req, "schedule", "same function at the same time", "two functions at the same time")
	run := func(c *mon.Ctx, lists [][]*W) {
		procs := []int{8, 4, 2, 1, 3}[c.Intn(5)]
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
		level := c.Intn(3)
		stop := make(chan struct{})
		if c.Intn(3) == 0 { // collections in between
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(300 * time.Microsecond):
						runtime.GC()
					}
				}
			}()
		}
		var want [][]Out
		if c.Bool() {
			want = seq(lists)
		}
		got, s := concurrent(lists, fmt.Sprintf("noise|%s|%d", c.Group, c.I), level)
		close(stop)
		if want == nil {
			want = seq(lists)
		}
		compare(c, lists, want, got, s.foreign.Load() > 0)
		c.Sample("%d goroutines on %d threads, first call %s", len(lists), procs, lists[0][0].call().Label())
	}
	groups := []mon.Group{
		{Name: "warm", Quick: 120, Thorough: 60000, Classes: req, Fn: func(c *mon.Ctx) {
			ng := 2 + c.Intn(7)
			if c.Intn(10) == 0 {
				ng = 24
			}
			nc := 3 + c.Intn(6)
			run(c, plan(c, c.I%5, ng, nc))
		}},
		// every function against itself and each type against itself
		{Name: "self", Quick: len(api.Funcs), Thorough: 400 * len(api.Funcs), Fn: func(c *mon.Ctx) {
			f := api.Funcs[c.I%len(api.Funcs)]
			n := 3
			if f.Slow > 1 {
				n = 2
			}
			lists := make([][]*W, 4)
			l := makeCalls(c, func() *api.Func { return f }, nil, n, "all")
			for g := range lists {
				lists[g] = l
				if c.Bool() {
					lists[g] = makeCalls(c, func() *api.Func { return f }, nil, n, fmt.Sprint(g))
				}
			}
			run(c, lists)
		}},
		// the first calls of a process
		{Name: "cold", Quick: 40, Thorough: 12000, Classes: []string{"first calls of a process"}, Fn: func(c *mon.Ctx) {
			ng := 4 + c.Intn(5)
			var lists [][]*W
			switch c.I % 3 {
			case 0:
				lists = plan(c, 0, ng, 1+c.Intn(2))
			case 1:
				lists = plan(c, 2+c.Intn(2), ng, 1)
			default:
				lists = plan(c, 4, ng, 1+c.Intn(3))
			}
			in, _ := json.Marshal(lists)
			cmd := exec.Command(os.Args[0])
			cmd.Env = append(os.Environ(), "OWVERIF_COLD=1", "GOMAXPROCS="+fmt.Sprint([]int{8, 8, 4, 2}[c.Intn(4)]))
			cmd.Stdin = bytes.NewReader(in)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err := cmd.Run()
			var res struct {
				Out     [][]Out
				Foreign bool
			}
			if err != nil || json.Unmarshal(so.Bytes(), &res) != nil {
				e := se.String()
				if len(e) > 5000 {
					e = e[:5000]
				}
				names := ""
				for _, l := range lists {
					names += " | " + l[0].call().Label()
				}
				if cmd.ProcessState == nil || !cmd.ProcessState.Exited() && e == "" {
					c.Seen("a process that could not be run")
					return
				}
				c.Failf("a process whose first calls are%s ends with %v:\n%s", names, err, e)
			}
			want := seq(lists)
			compare(c, lists, want, res.Out, res.Foreign)
			for _, l := range lists {
				c.Seen("first calls of a process", l[0].F, l[0].T, l[0].L)
			}
		}},
	}
	mon.Main("C28", groups)
}

func cold() {
	in, _ := io.ReadAll(os.Stdin)
	var lists [][]*W
	if err := json.Unmarshal(in, &lists); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out, s := concurrent(lists, "cold", 0)
	b, _ := json.Marshal(map[string]interface{}{"Out": out, "Foreign": s.foreign.Load() > 0})
	os.Stdout.Write(b)
}
