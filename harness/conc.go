package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Concurrent calls on the real code, recorded as invocations and returns.

// concurrent is set while calls are made from several goroutines: the bookkeeping of single calls
// would order them.
var concurrent atomic.Bool

// A gate holds up code of the user (a String method, a plural resolver) until it is opened.
type gate struct {
	armed   atomic.Bool
	entered chan struct{}
	open    chan struct{}
	boom    bool
}

func newGate(boom bool) *gate {
	g := &gate{entered: make(chan struct{}), open: make(chan struct{}), boom: boom}
	g.armed.Store(true)
	return g
}

// pass is what the user's code calls: the first one waits.
func (g *gate) pass() {
	if g != nil && g.armed.CompareAndSwap(true, false) {
		close(g.entered)
		<-g.open
		if g.boom {
			panic("boom")
		}
	}
}

// gated is an argument whose String method waits at a gate and then looks up what is being looked up.
type gated struct {
	s     string
	g     *gate
	again []func()
}

func (x gated) String() string {
	x.g.pass()
	for _, again := range x.again {
		again()
	}
	return x.s
}

type event [2]int

// A scenario is what several goroutines do to the objects that setup makes.
type scenario struct {
	id      string
	setup   []Op
	threads [][]Op
	after   []Op
	boom    bool // user code panics at the gate
	serve   bool // lookups must not wait for the gate
	mk      func() *world
}

func copyOps(l []Op) []Op {
	out := make([]Op, len(l))
	for i, o := range l {
		c := Op{}
		for k, v := range o {
			c[k] = v
		}
		out[i] = c
	}
	return out
}

// A run is one execution of a scenario.
type run struct {
	w     *world
	ops   []Op
	start []int // index of each thread's first call
	ev    []event
	mu    sync.Mutex
	clock atomic.Int64
	at    [][2]int64 // when each call was made and returned
}

func (w *world) view() *world { return &world{objs: w.objs, snaps: map[string]any{}, i18n: w.i18n} }

func (s *scenario) begin() *run {
	x := &run{}
	if s.mk != nil {
		x.w = s.mk()
	} else {
		x.w = newWorld()
	}
	x.ops = copyOps(s.setup)
	for _, o := range x.ops {
		x.w.exec(o)
	}
	for _, t := range s.threads {
		x.start = append(x.start, len(x.ops))
		x.ops = append(x.ops, copyOps(t)...)
	}
	x.start = append(x.start, len(x.ops))
	x.at = make([][2]int64, len(x.ops))
	return x
}

// call makes one recorded call.
func (x *run) call(w *world, j int) {
	x.at[j][0] = x.clock.Add(1)
	w.exec(x.ops[j])
	x.at[j][1] = x.clock.Add(1)
}

// finish makes the calls after the concurrent ones and puts the events in order.
func (x *run) finish(s *scenario) {
	n0 := len(x.ops)
	after := copyOps(s.after)
	for _, o := range after {
		x.w.exec(o)
	}
	x.ops = append(x.ops, after...)
	seq := func(a, b int) {
		for j := a; j < b; j++ {
			x.ev = append(x.ev, event{0, j + 1}, event{1, j + 1})
		}
	}
	seq(0, x.start[0])
	type e struct {
		t int64
		e event
	}
	var l []e
	for j := x.start[0]; j < n0; j++ {
		if x.at[j][0] == 0 {
			continue // never made: a scenario ends threads early when they panic
		}
		l = append(l, e{x.at[j][0], event{0, j + 1}}, e{x.at[j][1], event{1, j + 1}})
	}
	sort.Slice(l, func(a, b int) bool { return l[a].t < l[b].t })
	for _, q := range l {
		x.ev = append(x.ev, q.e)
	}
	seq(n0, len(x.ops))
	if x.w.i18n != nil {
		x.w.close()
	}
}

// overlaps tells whether any two calls of different threads overlapped.
func (x *run) overlaps() bool {
	for a := range x.start[:len(x.start)-1] {
		for b := a + 1; b < len(x.start)-1; b++ {
			for i := x.start[a]; i < x.start[a+1]; i++ {
				for j := x.start[b]; j < x.start[b+1]; j++ {
					if x.at[i][0] < x.at[j][1] && x.at[j][0] < x.at[i][1] {
						return true
					}
				}
			}
		}
	}
	return false
}

// key is the same for runs that the specification can't tell apart: same results, same order of calls
// that don't overlap.
func (x *run) key() string {
	var b strings.Builder
	for _, o := range x.ops {
		for _, f := range []string{"op", "obs", "panic"} {
			if v, ok := o[f]; ok {
				j, _ := json.Marshal(latin1(v))
				b.Write(j)
			}
			b.WriteByte(';')
		}
	}
	for i := range x.at {
		for j := range x.at {
			if x.at[i][1] < x.at[j][0] {
				fmt.Fprint(&b, i, "<", j, " ")
			}
		}
	}
	return b.String()
}

func (x *run) record(id string, s *sink) {
	ops := make([]any, len(x.ops))
	for i, o := range x.ops {
		if o["panic"] == "boom" { // what the user's code threw came through; the call did nothing
			o = Op{"op": "nop"}
		}
		delete(o, "gate")
		ops[i] = latin1(o)
	}
	j, err := json.Marshal(map[string]any{"id": id, "ops": ops, "ev": x.ev})
	if err != nil {
		panic(err)
	}
	s.b.Write(j)
	s.b.WriteByte('\n')
	s.n++
}

// onlyLooks tells whether a thread makes nothing but lookups of a locale.
func onlyLooks(l []Op) bool {
	for _, op := range l {
		_, pkg := op["pkg"]
		switch op["op"] {
		case "get", "getn", "istr", "istrn":
			if pkg {
				return false
			}
		case "lbin":
		default:
			return false
		}
	}
	return true
}

const serveLimit = 10 * time.Second

var errHang = errors.New("a call does not return")

const concLimit = 25 * time.Second

func hang(x *run, from int) {
	var l []any
	for j := range x.ops {
		if j < len(x.at) && x.at[j][0] != 0 && x.at[j][1] == 0 {
			o := Op{}
			for _, k := range []string{"op", "o", "l", "d", "i", "c", "pkg", "via"} {
				if v, ok := x.ops[j][k]; ok {
					o[k] = v
				}
			}
			l = append(l, latin1(o))
		}
	}
	j, _ := json.Marshal(l)
	if currentPath != "" {
		os.WriteFile(currentPath, j, 0o644)
	}
	if len(j) > 400 {
		j = j[:400]
	}
	fmt.Fprintln(os.Stderr, "HANG", string(j))
	os.Exit(3)
}

var currentPath string

// free lets the threads run freely, each delayed a little at random.
func (s *scenario) free(r R) *run {
	x := s.begin()
	n := len(s.threads)
	var ready, left sync.WaitGroup
	var gun atomic.Bool
	spins := make([]int, n)
	for k := range spins {
		if r.chance(0.7) {
			spins[k] = r.Intn(1 << uint(r.Intn(13)))
		}
	}
	ready.Add(n)
	left.Add(n)
	for k := 0; k < n; k++ {
		go func(k int) {
			defer left.Done()
			w := x.w.view()
			ready.Done()
			for !gun.Load() {
			}
			for i := 0; i < spins[k]; i++ {
				spinSink.Add(0)
			}
			for j := x.start[k]; j < x.start[k+1]; j++ {
				x.call(w, j)
			}
		}(k)
	}
	ready.Wait()
	gun.Store(true)
	done := make(chan struct{})
	go func() { left.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(concLimit):
		hang(x, x.start[0])
	}
	x.finish(s)
	return x
}

var spinSink atomic.Int64

// staged starts one thread after the other, the first of which stops at the gate, and then opens it.
func (s *scenario) staged(g *gate, settle time.Duration) *run {
	x := s.begin()
	n := len(s.threads)
	done := make([]chan struct{}, n)
	start := func(k int) {
		done[k] = make(chan struct{})
		go func() {
			defer close(done[k])
			w := x.w.view()
			for j := x.start[k]; j < x.start[k+1]; j++ {
				x.call(w, j)
			}
		}()
	}
	start(0)
	select {
	case <-g.entered:
	case <-done[0]: // it got by without the user's code
	case <-time.After(concLimit):
		hang(x, 0)
	}
	for k := 1; k < n; k++ {
		start(k)
		wait := settle
		if s.serve && onlyLooks(s.threads[k]) {
			wait = serveLimit
		}
		select {
		case <-done[k]:
		case <-time.After(wait):
			if wait == serveLimit {
				hang(x, x.start[0])
			}
		}
	}
	close(g.open)
	late := time.After(concLimit)
	for k := 0; k < n; k++ {
		select {
		case <-done[k]:
		case <-late:
			hang(x, 0)
		}
	}
	x.finish(s)
	return x
}

// repeated runs a scenario many times and records every different outcome.
func (s *scenario) repeated(r R, times int, out *sink, mu *sync.Mutex) {
	seen := map[string]bool{}
	for k := 0; k < times; k++ {
		x := s.free(r)
		if k > 0 && !x.overlaps() {
			continue
		}
		key := x.key()
		if seen[key] {
			continue
		}
		seen[key] = true
		mu.Lock()
		x.record(fmt.Sprintf("%s/%d", s.id, k), out)
		mu.Unlock()
		if len(seen) >= 25 {
			return
		}
	}
}

// parallel runs jobs on some goroutines.
func parallel(n, workers int, f func(k int)) {
	next := make(chan int)
	var wg sync.WaitGroup
	for p := 0; p < workers; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range next {
				f(k)
			}
		}()
	}
	for k := 0; k < n; k++ {
		next <- k
	}
	close(next)
	wg.Wait()
}

func init() { runtime.GOMAXPROCS(max(8, runtime.NumCPU())) }
