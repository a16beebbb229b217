package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

// Scenarios of concurrent calls on one catalogue.

var cIds = []string{"a", "b", "new"}
var cCtxs = []string{"", "", "c", "c", "d"}
var cRules = []string{"none", "n != 1", "n == 1 ? 0 : 2", "0", "n > 1", "n == 1 ? 2 : 1"}
var cNs = []uint32{0, 1, 2, 5}

var (
	cReads = []string{"get", "getn", "istr", "istrn", "append", "appendn", "getrefs", "snap", "text", "bin"}
	// changes of every object; parsemo only for Mo objects, parse only for Po ones
	cWrites = []string{"set", "setn", "setrefs", "drop", "res", "ubin"}
)

type cgen struct {
	r    R
	kind string
	n    int
	many int // extra entries in the files, so that reading them takes a while
}

func (c *cgen) fresh(p string) string { c.n++; return fmt.Sprint(p, c.n) }

func (c *cgen) writes() []string {
	switch c.kind {
	case "po":
		return append([]string{"parse"}, cWrites...)
	case "mo":
		return append([]string{"parsemo"}, cWrites...)
	}
	return cWrites
}

func (c *cgen) msgs() []message {
	t := c.fresh("F")
	out := []message{}
	if rule := pick(c.r, cRules); rule != "none" || c.r.chance(0.5) {
		h := "Language: " + t + "\n"
		if rule != "none" {
			h += "Plural-Forms: nplurals=3; plural=" + rule + ";\n"
		}
		out = append(out, message{forms: map[int]string{0: h}})
	}
	for _, k := range [][2]string{{"", "a"}, {"", "b"}, {"c", "a"}, {"c", "b"}, {"d", "a"}, {"e", "b"}} {
		if c.r.chance(0.15) {
			continue
		}
		m := message{ctx: k[0], id: k[1], forms: map[int]string{0: t + "-0%s"}}
		if c.r.chance(0.7) {
			m.pl = k[1] + "s"
			m.forms[1], m.forms[2] = t+"-1%s", t+"-2%s"
		}
		if c.kind == "po" && c.r.chance(0.5) {
			m.refs = []string{t + ".go:1"}
		}
		out = append(out, m)
		for j := 0; j < c.many; j++ {
			out = append(out, message{ctx: k[0], id: fmt.Sprint("fill", k[1], j), forms: map[int]string{0: t}})
		}
	}
	return out
}

// call makes a call on object o for thread t.
func (c *cgen) call(kind string, t int) []Op {
	r := c.r
	op := Op{"op": kind, "o": "o", "via": pick(r, []string{"", "dom"}), "i": pick(r, cIds), "c": pick(r, cCtxs)}
	arg := func() {
		if r.chance(0.3) {
			op["args"] = []any{map[string]any{"t": pick(r, []string{"s", "l"}), "v": "x"}}
		}
	}
	plural := func() {
		n := pick(r, cNs)
		op["n"] = []int{int(n >> 16), int(n & 0xffff)}
		op["p"] = pick(r, []string{"many", "many %s"})
	}
	switch kind {
	case "get", "append":
		arg()
	case "getn", "appendn":
		plural()
		arg()
	case "istrn":
		plural()
	case "set":
		op["s"] = c.fresh("S") + "%s"
	case "setn":
		plural()
		op["p"] = op["i"].(string) + c.fresh("p")
		op["s"] = c.fresh("N") + "%s"
	case "setrefs":
		delete(op, "c")
		op["r"] = []string{c.fresh("r") + ".go:1", "x.go:2"}
	case "getrefs":
		delete(op, "c")
	case "res":
		op["r"] = pick(r, []string{"zero", "one", "two", "mod3"})
	case "snap":
		op["wc"], op["name"] = r.chance(0.5), fmt.Sprint("s", t)
	case "text":
		op["once"] = true
	case "parse":
		op["text"] = lex(r.poText(c.msgs(), layout{}))
	case "parsemo":
		op["img"] = img(r.moImage(c.msgs()))
	case "bin": // what the encoding says is looked at in a catalogue of the thread's own
		op["to"] = fmt.Sprint("p", t)
		own := Op{"op": "snap", "o": op["to"], "wc": r.chance(0.5), "name": "s"}
		return []Op{op, own}
	case "ubin":
		return []Op{{"op": "bin", "o": pick(r, []string{"q0", "q1"}), "to": "o", "tovia": "dom"}}
	}
	if kind != "snap" && kind != "drop" && kind != "res" && kind != "text" && kind != "parse" && kind != "parsemo" {
		return []Op{op}
	}
	delete(op, "i")
	delete(op, "c")
	return []Op{op}
}

// frame is the setup and the final look of a scenario.
func (c *cgen) frame(threads int) *scenario {
	r := c.r
	s := &scenario{setup: []Op{{"op": "new", "o": "o", "kind": c.kind}}}
	for _, q := range []string{"q0", "q1"} {
		s.setup = append(s.setup, Op{"op": "new", "o": q, "kind": "po"},
			Op{"op": "parse", "o": q, "text": lex(r.poText((&cgen{r: r, kind: "po", n: 100 + 100*len(s.setup)}).msgs(), layout{}))})
	}
	for t := 0; t < threads; t++ {
		s.setup = append(s.setup, Op{"op": "new", "o": fmt.Sprint("p", t), "kind": "po"})
	}
	if r.chance(0.5) && c.kind != "dom" {
		s.setup = append(s.setup, c.call(map[string]string{"po": "parse", "mo": "parsemo"}[c.kind], 0)...)
	}
	if r.chance(0.5) {
		s.setup = append(s.setup, c.call("set", 0)...)
	}
	for _, ctx := range []string{"", "c"} {
		for _, i := range cIds {
			for _, n := range []uint32{0, 1, 2} {
				s.after = append(s.after, Op{"op": "getn", "o": "o", "i": i, "c": ctx, "p": "pl", "n": []int{0, int(n)}})
			}
		}
	}
	s.after = append(s.after, Op{"op": "snap", "o": "o", "wc": false, "name": "e"}, Op{"op": "snap", "o": "o", "wc": true, "name": "e"},
		Op{"op": "headers", "o": "o", "via": "dom"})
	return s
}

func randomScenario(r R, id string) *scenario {
	c := &cgen{r: r, kind: pick(r, []string{"po", "po", "mo", "dom"})}
	if r.chance(0.25) {
		c.many = 6
	}
	threads := 2 + r.Intn(3)
	s := c.frame(threads)
	s.id = id
	focus := r.chance(0.6) // everybody after the same entry
	for t := 0; t < threads; t++ {
		var l []Op
		for k := 1 + r.Intn(3); k > 0 && len(l) < 3; k-- {
			if r.chance(0.5) {
				l = append(l, c.call(pick(r, c.writes()), t)...)
			} else {
				l = append(l, c.call(pick(r, cReads), t)...)
			}
		}
		s.threads = append(s.threads, l)
	}
	if focus {
		i, ctx := pick(r, cIds), pick(r, cCtxs)
		for _, t := range s.threads {
			for _, op := range t {
				if _, ok := op["i"]; ok {
					op["i"] = i
				}
				if _, ok := op["c"]; ok {
					op["c"] = ctx
				}
			}
		}
	}
	return s
}

// A plan, from the model of the locks: what call 1 is doing when calls 2 and 3 come.
type plan struct {
	K  []string `json:"k"`
	At string   `json:"at"`
}

var planOps = map[string][]string{
	"read":     {"get", "append", "istr", "getrefs", "snap", "text", "bin"},
	"readn":    {"getn", "appendn", "istrn"},
	"setn":     {"setn"},
	"write":    {"set", "parse", "setrefs", "drop", "parsemo", "parse", "parsemo", "ubin"},
	"resolver": {"res"},
}

// planned makes the calls of a plan; call 1 is one that can run the user's code there.
func planned(r R, p plan, id string, boom bool) (*scenario, *gate) {
	c := &cgen{r: r, kind: pick(r, []string{"po", "po", "mo"})}
	s := c.frame(6)
	s.id = id
	g := newGate(boom)
	arg := []any{map[string]any{"t": "s", "v": "gated", "g": true}}
	var first []string
	atString := p.At == "user string"
	switch {
	case p.K[0] == "read" && atString:
		first = []string{"get", "append"}
	case p.K[0] == "readn" && atString:
		first = []string{"getn", "appendn"}
	case p.K[0] == "readn":
		first = []string{"getn", "appendn", "istrn"}
	default:
		first = []string{"setn"}
	}
	call := c.call(pick(r, first), 0)
	call[0]["gate"] = g
	// make sure that the user's code is called: there is a %s to fill, or a resolver and no rule
	i, ctx := call[0]["i"].(string), call[0]["c"].(string)
	if atString {
		delete(call[0], "args")
		call[0]["args"] = arg
		for _, n := range []uint32{0, 1, 2, 5} {
			s.setup = append(s.setup, Op{"op": "setn", "o": "o", "i": i, "c": ctx, "p": "pl %s", "n": []int{0, int(n)}, "s": c.fresh("G") + " %s"})
		}
		s.setup = append(s.setup, Op{"op": "set", "o": "o", "i": i, "c": ctx, "s": c.fresh("G") + " %s"})
	} else {
		s.setup = []Op{}
		for _, o := range c.frame(6).setup {
			if o["op"] != "parse" && o["op"] != "parsemo" || o["o"] != "o" {
				s.setup = append(s.setup, o)
			}
		}
		s.setup = append(s.setup, Op{"op": "setn", "o": "o", "i": i, "c": ctx, "p": "pl", "n": []int{0, 1}, "s": "first"},
			Op{"op": "res", "o": "o", "r": pick(r, []string{"one", "two", "mod3"}), "gate": g})
		delete(call[0], "args")
		delete(call[0], "gate")
	}
	s.threads = append(s.threads, call)
	// the calls of the plan, and some more, in any order
	kinds := append([]string{}, p.K[1:]...)
	for k := r.Intn(3); k > 0; k-- {
		kinds = append(kinds, pick(r, []string{"read", "readn", "write"}))
	}
	r.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	for k, kind := range kinds {
		var l []Op
		for n := pick(r, []int{1, 1, 2}); n > 0; n-- {
			for {
				op := pick(r, planOps[kind])
				if op == "parse" && c.kind != "po" || op == "parsemo" && c.kind != "mo" {
					continue
				}
				l = append(l, c.call(op, k+1)...)
				break
			}
		}
		if r.chance(0.7) {
			for _, op := range l {
				if _, ok := op["i"]; ok {
					op["i"] = i
				}
				if _, ok := op["c"]; ok {
					op["c"] = ctx
				}
			}
		}
		s.threads = append(s.threads, l)
	}
	return s, g
}

func readPlans(path string) []plan {
	f, err := os.Open(path)
	if err != nil {
		panic("gotextverif: driver error: " + err.Error())
	}
	defer f.Close()
	var out []plan
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var p plan
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			panic("gotextverif: driver error: " + err.Error())
		}
		out = append(out, p)
	}
	return out
}

// race lets the threads run without anything of ours ordering them.
func (s *scenario) race() {
	x := s.begin()
	var left sync.WaitGroup
	gun := make(chan struct{})
	for k := range s.threads {
		left.Add(1)
		go func(k int) {
			defer left.Done()
			w := x.w.view()
			<-gun
			for j := x.start[k]; j < x.start[k+1]; j++ {
				w.exec(x.ops[j])
			}
		}(k)
	}
	close(gun)
	done := make(chan struct{})
	go func() { left.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(concLimit):
		j, _ := json.Marshal(latin1(s.id))
		os.WriteFile(currentPath, j, 0o644)
		fmt.Fprintln(os.Stderr, "HANG", s.id)
		os.Exit(3)
	}
	if x.w.i18n != nil {
		x.w.close()
	}
	for _, op := range x.ops[x.start[0]:] {
		if p, ok := op["panic"]; ok {
			panic(fmt.Sprint(op["op"], " panicked: ", p))
		}
	}
}

// pairs calls f with every two kinds of calls on every kind of object.
func pairs(f func(kind, a, b string)) {
	for _, kind := range []string{"po", "mo", "dom"} {
		c := &cgen{kind: kind}
		all := append(append([]string{}, cReads...), c.writes()...)
		for i, a := range all {
			for _, b := range all[i:] {
				f(kind, a, b)
			}
		}
	}
}

func init() {
	// free running threads
	drivers["C15"] = func(r R, count int, out *sink) {
		seeds := make([]R, count)
		for k := range seeds {
			seeds[k] = r.child()
		}
		concurrent.Store(true)
		var mu sync.Mutex
		parallel(count, 2, func(k int) {
			c := seeds[k]
			randomScenario(c, fmt.Sprint("C15-", k)).repeated(c, 150, out, &mu)
		})
	}
	// threads that meet where the model of the locks says
	drivers["C15g"] = func(r R, count int, out *sink) {
		plans := readPlans(os.Args[5])
		type job struct {
			p    plan
			r    R
			boom bool
		}
		var jobs []job
		for k := 0; k < count; k++ {
			for _, p := range plans {
				jobs = append(jobs, job{p, r.child(), k%4 == 1})
			}
		}
		concurrent.Store(true)
		var mu sync.Mutex
		parallel(len(jobs), 32, func(k int) {
			j := jobs[k]
			id := fmt.Sprintf("C15g-%d-%s-%s", k, strings.Join(j.p.K, "+"), strings.ReplaceAll(j.p.At, " ", "-"))
			s, g := planned(j.r, j.p, id, j.boom)
			x := s.staged(g, 3*time.Millisecond)
			mu.Lock()
			defer mu.Unlock()
			if j.boom { // what is formatted or selected by code that panics is not prescribed
				o := x.ops[x.start[0]]
				x.ops[x.start[0]] = Op{"op": "nop"}
				if _, ok := o["panic"]; ok {
					x.ops[x.start[0]] = Op{"op": "nop"}
				}
			}
			x.record(id, out)
		})
	}
	// every two kinds of calls, for the race detector
	drivers["C15race"] = func(r R, count int, out *sink) {
		concurrent.Store(true)
		type job struct {
			kind, a, b string
			r          R
		}
		var jobs []job
		for k := 0; k < count; k++ {
			pairs(func(kind, a, b string) { jobs = append(jobs, job{kind, a, b, r.child()}) })
		}
		parallel(len(jobs), 4, func(k int) {
			j := jobs[k]
			c := &cgen{r: j.r, kind: j.kind}
			s := c.frame(4)
			s.id = fmt.Sprintf("%s: %s with %s", j.kind, j.a, j.b)
			for t, kind := range []string{j.a, j.b, j.a, j.b} {
				var l []Op
				for n := 0; n < 4; n++ {
					l = append(l, c.call(kind, t)...)
				}
				s.threads = append(s.threads, l)
			}
			s.race()
		})
	}
	// readers and writers in a tight loop, for deadlocks
	drivers["C15hammer"] = func(r R, count int, out *sink) {
		concurrent.Store(true)
		for _, kind := range []string{"po", "mo"} {
			c := &cgen{r: r, kind: kind}
			for _, a := range append(append([]string{}, cReads...), c.writes()...) {
				for _, b := range []string{"set", "res", "drop"} {
					s := c.frame(4)
					s.id = fmt.Sprintf("%s: %s against %s in a loop", kind, a, b)
					for t, kind := range []string{a, a, b, a} {
						var one, l []Op
						for n := 0; n < 4; n++ {
							one = append(one, c.call(kind, t)...)
						}
						for n := 0; n < count; n++ {
							l = append(l, one...)
						}
						s.threads = append(s.threads, l)
					}
					s.race()
				}
			}
		}
	}
}
