package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

// Cycles: one goroutine makes the same changes again and again, which lead through the same few states;
// others look all the time. Whatever they see must be what one of these states shows.

type cycle struct {
	id             string
	setup, ws, qs  []Op
	after          []Op
	readers, pause int
}

const maxSeen = 60

func (c *cycle) run(length time.Duration) trace {
	w := newWorld()
	ops := copyOps(c.setup)
	for _, o := range ops {
		w.exec(o)
	}
	first := copyOps(c.ws)
	for _, o := range first {
		w.exec(o)
	}
	cyc := Op{"op": "cycle", "ws": first}
	var stop atomic.Bool
	var mu sync.Mutex
	seen := make([]map[string]any, len(c.qs))
	for k := range seen {
		seen[k] = map[string]any{}
	}
	panicked := func(op Op) {
		if p, ok := op["panic"]; ok {
			mu.Lock()
			cyc["panic"] = fmt.Sprint(op["op"], ": ", p)
			mu.Unlock()
			stop.Store(true)
		}
	}
	var left sync.WaitGroup
	left.Add(1 + c.readers)
	go func() {
		defer left.Done()
		v := w.view()
		for !stop.Load() {
			for _, o := range copyOps(c.ws) {
				v.exec(o)
				panicked(o)
				for k := 0; k < c.pause; k++ {
					spinSink.Add(0)
				}
			}
		}
	}()
	for t := 0; t < c.readers; t++ {
		go func(t int) {
			defer left.Done()
			v := w.view()
			mine := make([]map[string]any, len(c.qs))
			for k := range mine {
				mine[k] = map[string]any{}
			}
			for n := t; !stop.Load(); n++ {
				k := n % len(c.qs)
				o := copyOps(c.qs[k : k+1])[0]
				v.exec(o)
				panicked(o)
				j, _ := json.Marshal(o["obs"])
				if _, ok := mine[k][string(j)]; !ok && len(mine[k]) < maxSeen {
					mine[k][string(j)] = o["obs"]
				}
			}
			mu.Lock()
			defer mu.Unlock()
			for k := range mine {
				for j, x := range mine[k] {
					seen[k][j] = x
				}
			}
		}(t)
	}
	time.Sleep(length)
	stop.Store(true)
	done := make(chan struct{})
	go func() { left.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(concLimit):
		os.WriteFile(currentPath, []byte(c.id), 0o644)
		fmt.Fprintln(os.Stderr, "HANG", c.id)
		os.Exit(3)
	}
	qs := []Op{}
	for k, q := range copyOps(c.qs) {
		l := []any{}
		for _, j := range sortedKeys(seen[k]) {
			l = append(l, seen[k][j])
		}
		q["obs"] = l
		qs = append(qs, q)
	}
	cyc["qs"] = qs
	ops = append(ops, cyc)
	after := copyOps(c.after)
	for _, o := range after {
		w.exec(o)
	}
	if w.i18n != nil {
		w.close()
	}
	return trace{c.id, append(ops, after...)}
}

// catalogue makes a cycle for one catalogue.
func (c *cgen) cycle(id string) *cycle {
	r := c.r
	y := &cycle{id: id, readers: 2 + r.Intn(4)}
	f := c.frame(0)
	y.setup = f.setup
	y.after = f.after
	if r.chance(0.3) {
		c.many = 4
	}
	if r.chance(0.3) {
		y.pause = 1 << uint(r.Intn(12))
	}
	file := map[string]string{"po": "parse", "mo": "parsemo", "dom": "ubin"}[c.kind]
	kinds := pick(r, [][]string{{file, file}, {file, file}, {file, "ubin"}, {"ubin", "ubin"}, {file, file, "set"}, {file, "setn"}, {file, "set"}, {file, "drop", "set"},
		{file, "setrefs"}, {file, "ubin", "res"}, {"set", "set"}, {"setn", "setn"}, {"setn", "set"}, {"setrefs", "setrefs"}, {file, file, file}, {"set", "drop", "ubin"}, c.writes()})
	i, ctx, focus := pick(r, cIds[:2]), pick(r, cCtxs), r.chance(0.75)
	for k, kind := range kinds {
		for _, op := range c.call(kind, 0) {
			if _, ok := op["i"]; ok && focus {
				op["i"] = i
			}
			if _, ok := op["c"]; ok && focus {
				op["c"] = ctx
			}
			if op["op"] == "bin" {
				op["o"] = fmt.Sprint("q", k%2)
			}
			y.ws = append(y.ws, op)
		}
	}
	reads := []string{"get", "getn", "getn", "istr", "istrn", "istrn", "append", "appendn", "getrefs", "snap", "text", "binsnap"}
	for k := 6 + r.Intn(6); k > 0; k-- {
		kind := pick(r, reads)
		if kind == "binsnap" {
			y.qs = append(y.qs, Op{"op": kind, "o": "o", "via": pick(r, []string{"", "dom"})})
			continue
		}
		op := c.call(kind, 0)[0]
		if _, ok := op["i"]; ok && focus {
			op["i"] = i
		}
		if _, ok := op["c"]; ok && focus {
			op["c"] = ctx
		}
		y.qs = append(y.qs, op)
	}
	return y
}

// cycle makes one for a locale, or the package.
func (g *lgen) cycle(id string) *cycle {
	r := g.r
	y := &cycle{id: id, readers: 2 + r.Intn(4)}
	doms := []string{"d1", "d2"}
	y.setup = g.catalogues("P0", "P1")
	one, place := g.locale("X", "S1", "en_US", doms)
	two, _ := g.locale("Y", "S2", "es", doms)
	y.setup = append(append(y.setup, one...), two...)
	if r.chance(0.3) {
		y.pause = 1 << uint(r.Intn(12))
	}
	l := "X"
	if g.pkg {
		l = ""
		libs, langs := []string{"/R/A", "/R/B"}, []string{"en_US", "es", "en_US:es", "es:en_US"}
		for _, lib := range libs {
			for _, lang := range langs[:2] {
				for _, d := range doms {
					if !r.chance(0.15) {
						y.setup = append(y.setup, g.write(cp(segsOf("OS", lib), lang, "LC_MESSAGES", d+".po"), 0.35))
					}
				}
			}
		}
		conf := Op{"op": "pconf", "lib": libs[0], "lang": pick(r, langs), "d": "d1"}
		y.setup = append(y.setup, conf)
		same := pick(r, []string{"pconf", "plocs", "plang", "plib", "", ""})
		for k := 2 + r.Intn(2); k > 0; k-- {
			kind := pick(r, []string{"pconf", "plocs", "plang", "plib", "pdom"})
			if same != "" {
				kind = same
			}
			op := g.raceCall(kind, true, 0)
			switch kind {
			case "pconf":
				op["lib"] = libs[k%2]
				op["lang"] = pick(r, langs)
			case "plib":
				op["lib"] = libs[k%2]
			case "plang":
				op["lang"] = langs[(k+r.Intn(2)*2)%4]
			case "plocs":
				op["ls"] = [][]string{{"X"}, {"Y", "X"}, {"X", "Y"}, {"Y"}}[(k+r.Intn(2)*2)%4]
			}
			y.ws = append(y.ws, op)
		}
	} else {
		y.setup = append(y.setup, Op{"op": "lload", "l": "X", "d": "d1"}, Op{"op": "lattach", "l": "X", "d": "d2", "at": "P0"})
		if r.chance(0.2) {
			y.ws = append(y.ws, Op{"op": "lset", "l": "X", "d": "d1"}, Op{"op": "lset", "l": "X", "d": "d2"})
		} else {
			d := pick(r, doms)
			for k := 2 + r.Intn(2); k > 0; k-- {
				switch r.Intn(4) {
				case 0:
					y.ws = append(y.ws, Op{"op": "lattach", "l": "X", "d": d, "at": fmt.Sprint("P", k%2)})
				case 1, 2:
					y.ws = append(y.ws, g.write(place[d], 0.3))
					fallthrough
				default:
					y.ws = append(y.ws, Op{"op": "lload", "l": "X", "d": d})
				}
				if r.chance(0.2) {
					d = pick(r, doms)
				}
			}
		}
	}
	y.setup = append(y.setup, Op{"op": "hold", "root": "S1", "n": []int{0, pick(r, []int{0, 0, 3, 30})}})
	for k := 6 + r.Intn(6); k > 0; k-- {
		d := pick(r, doms)
		if x, ok := y.ws[0]["d"].(string); ok && !g.pkg && r.chance(0.6) {
			d = x
		}
		op := g.look(l, d)
		if !g.pkg && y.ws[0]["op"] == "lset" && r.chance(0.5) {
			delete(op, "d")
		}
		y.qs = append(y.qs, op)
	}
	if !g.pkg && r.chance(0.3) {
		y.qs = append(y.qs, Op{"op": "ldom", "l": "X"})
	}
	y.after = g.all(l, doms)
	return y
}

func init() {
	cycles := func(name string, workers int, mk func(r R, id string) *cycle) {
		drivers[name] = func(r R, count int, out *sink) {
			seeds := make([]R, count)
			for k := range seeds {
				seeds[k] = r.child()
			}
			concurrent.Store(true)
			var mu sync.Mutex
			parallel(count, workers, func(k int) {
				t := mk(seeds[k], fmt.Sprint(name, "-", k)).run(200 * time.Millisecond)
				mu.Lock()
				defer mu.Unlock()
				out.put(t)
			})
		}
	}
	cycles("C15c", 4, func(r R, id string) *cycle {
		return (&cgen{r: r, kind: pick(r, []string{"po", "po", "mo", "dom"})}).cycle(id)
	})
	cycles("C16c", 4, func(r R, id string) *cycle { return (&lgen{r: r}).cycle(id) })
	// the package is global: one at a time
	cycles("C16cp", 1, func(r R, id string) *cycle { return (&lgen{r: r, pkg: true}).cycle(id) })
}
