package main

import (
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"strings"
	"sync"
	"time"
)

// Scenarios of concurrent calls on a locale, and on the package.

type lgen struct {
	r    R
	n    int
	pkg  bool
	slow int
}

func (g *lgen) fresh(p string) string { g.n++; return fmt.Sprint(p, g.n) }

var lIds = []string{"a", "b"}
var lCtxs = []string{"", "", "c"}

// msgs are what a file or a catalogue holds; most ids are translated in all of them.
func (g *lgen) msgs(gaps float64) []message {
	t := g.fresh("V")
	out := []message{{forms: map[int]string{0: "Plural-Forms: nplurals=2; plural=" + pick(g.r, []string{"n != 1", "n == 1", "n > 1", "0"}) + ";\n"}}}
	for _, c := range []string{"", "c"} {
		for _, i := range lIds {
			if g.r.chance(gaps) {
				continue
			}
			out = append(out, message{ctx: c, id: i, pl: i + "s", forms: map[int]string{0: t + "-0", 1: t + "-1"}})
		}
	}
	return out
}

func (g *lgen) write(segs []string, gaps float64) Op {
	if segs[len(segs)-1][len(segs[len(segs)-1])-2:] == "mo" {
		return Op{"op": "writemo", "path": segs, "img": img(g.r.moImage(forMo(g.msgs(gaps))))}
	}
	return Op{"op": "write", "path": segs, "text": lex(g.r.poText(g.msgs(gaps), layout{}))}
}

// look is a lookup in a domain of locale l, or of the package.
func (g *lgen) look(l, d string) Op {
	r := g.r
	op := Op{"op": pick(r, []string{"get", "getn", "getn", "istr", "istrn"}), "d": d, "i": pick(r, lIds), "c": pick(r, lCtxs)}
	if l == "" {
		op["pkg"] = true
		op["langs"] = []string{}
	} else {
		op["l"] = l
	}
	if op["op"] == "getn" || op["op"] == "istrn" {
		op["p"] = "many"
		op["n"] = []int{0, pick(r, []int{0, 1, 2})}
	}
	if (op["op"] == "get" || op["op"] == "getn") && r.chance(0.2) {
		op["args"] = []any{map[string]any{"t": "l", "v": "x"}}
	}
	return op
}

func (g *lgen) all(l string, doms []string) []Op {
	out := []Op{}
	for _, d := range doms {
		for _, c := range []string{"", "c"} {
			for _, i := range lIds {
				for _, n := range []int{1, 2, 0} {
					op := Op{"op": "getn", "d": d, "i": i, "c": c, "p": "many", "n": []int{0, n}}
					if n == 0 {
						op = Op{"op": "get", "d": d, "i": i, "c": c}
					}
					if l == "" {
						op["pkg"] = true
					} else {
						op["l"] = l
					}
					out = append(out, op)
				}
			}
		}
	}
	return out
}

// catalogues makes catalogues to attach.
func (g *lgen) catalogues(names ...string) []Op {
	out := []Op{}
	for _, q := range names {
		out = append(out, Op{"op": "new", "o": q, "kind": "po"}, Op{"op": "parse", "o": q, "text": lex(g.r.poText(g.msgs(0.2), layout{}))})
	}
	return out
}

// locale makes locale l with domains in a file system of its own; the places of its files.
func (g *lgen) locale(l, root, lang string, doms []string) (setup []Op, place map[string][]string) {
	place = map[string][]string{}
	for _, d := range doms {
		dir := lang
		if b := baseOf(lang); b != "" && g.r.chance(0.3) {
			dir = b
		}
		place[d] = []string{root, dir, "LC_MESSAGES", d + pick(g.r, []string{".po", ".po", ".mo"})}
		setup = append(setup, g.write(place[d], 0.2))
	}
	setup = append(setup, Op{"op": "lnew", "l": l, "how": "fs", "root": root, "path": "", "lang": lang})
	return
}

// localeScenario: domains of one locale are loaded, reloaded and attached while others look.
func (g *lgen) localeScenario(id string, slow bool) *scenario {
	r := g.r
	s := &scenario{id: id}
	doms := []string{"d1", "d2"}
	s.setup = g.catalogues("P0", "P1")
	setup, place := g.locale("X", "S1", pick(r, []string{"en_US", "fr"}), doms)
	s.setup = append(s.setup, setup...)
	for t := 0; t < 5; t++ {
		s.setup = append(s.setup, Op{"op": "lnew", "l": fmt.Sprint("T", t), "how": "zero", "root": "S9", "path": "", "lang": ""})
	}
	if r.chance(0.8) {
		s.setup = append(s.setup, Op{"op": "lload", "l": "X", "d": "d1"})
	}
	// an object that is edited stays where it is attached: a lookup that has found its domain answers from it,
	// whatever happens to the locale meanwhile
	edited := r.chance(0.3)
	if edited {
		s.setup = append(s.setup, Op{"op": "lattach", "l": "X", "d": "d2", "at": "P0"})
	}
	s.setup = append(s.setup, Op{"op": "hold", "root": "S1", "n": []int{0, pick(r, []int{0, 0, 3, 30})}})
	threads := 2 + r.Intn(3)
	for t := 0; t < threads; t++ {
		var l []Op
		switch {
		case t == 0 || t == 1 && r.chance(0.5): // changes the locale; only the first changes files
			for k := 1 + r.Intn(2); k > 0; k-- {
				d, at := pick(r, []string{"d1", "d1", "d2"}), pick(r, []string{"P0", "P1"})
				if edited {
					d, at = "d1", "P1"
				}
				if t == 0 && r.chance(0.7) {
					l = append(l, g.write(place[d], 0.2))
				}
				if r.chance(0.3) {
					l = append(l, Op{"op": "lattach", "l": "X", "d": d, "at": at})
				} else {
					l = append(l, Op{"op": "lload", "l": "X", "d": d})
				}
			}
		case edited && r.chance(0.3):
			l = append(l, Op{"op": "setn", "o": "P0", "i": pick(r, lIds), "c": pick(r, lCtxs), "p": "ps", "n": []int{0, r.Intn(3)}, "s": g.fresh("N")})
		case r.chance(0.2):
			to := fmt.Sprint("T", t)
			l = append(l, Op{"op": "lbin", "l": "X", "to": to}, g.look(to, "d1"), g.look(to, "d1"), g.look(to, "d2"))
		case r.chance(0.15):
			l = append(l, Op{"op": "ltrans", "l": "X"})
		default:
			for k := 1 + r.Intn(3); k > 0; k-- {
				l = append(l, g.look("X", pick(r, []string{"d1", "d1", "d2"})))
			}
		}
		s.threads = append(s.threads, l)
	}
	s.after = g.all("X", doms)
	return s
}

// packageScenario: the package, or one of its locales, changes while others look.
func (g *lgen) packageScenario(id string) *scenario {
	r := g.r
	s := &scenario{id: id}
	doms := []string{"d1", "d2"}
	libs := []string{"/R/A", "/R/B"}
	langs := []string{"en_US", "es"}
	s.setup = g.catalogues("P0", "P1")
	var files [][]string
	for _, lib := range libs {
		for _, lang := range langs {
			for _, d := range doms {
				if r.chance(0.15) {
					continue
				}
				f := cp(segsOf("OS", lib), lang, "LC_MESSAGES", d+".po")
				files = append(files, f)
				s.setup = append(s.setup, g.write(f, 0.35))
			}
		}
	}
	one, place := g.locale("X", "S1", "en_US", doms)
	two, _ := g.locale("Y", "S2", "es", doms)
	s.setup = append(append(s.setup, one...), two...)
	conf := func() Op {
		switch r.Intn(5) {
		case 0:
			return Op{"op": "pconf", "lib": pick(r, libs), "lang": pick(r, []string{"en_US", "es", "en_US:es", "es:en_US"}), "d": pick(r, doms)}
		case 1:
			return Op{"op": "plib", "lib": pick(r, libs)}
		case 2:
			return Op{"op": "plang", "lang": pick(r, []string{"en_US", "es", "en_US:es", "es:en_US"})}
		case 3:
			return Op{"op": "plocs", "ls": pick(r, [][]string{{"X"}, {"X", "Y"}, {"Y", "X"}, {"Y"}}), "how": "locales"}
		}
		return Op{"op": "pdom", "d": pick(r, doms)}
	}
	s.setup = append(s.setup, Op{"op": "pconf", "lib": libs[0], "lang": pick(r, []string{"en_US", "es", "en_US:es"}), "d": "d1"})
	direct := r.chance(0.4) // one of the locales is changed, not the configuration
	if direct {
		s.setup = append(s.setup, Op{"op": "plocs", "ls": pick(r, [][]string{{"X"}, {"X", "Y"}, {"Y", "X"}}), "how": "locales"})
	} else if r.chance(0.4) {
		s.setup = append(s.setup, conf())
	}
	if r.chance(0.5) {
		s.setup = append(s.setup, g.look("", "d1"))
	}
	s.setup = append(s.setup, Op{"op": "hold", "root": "S1", "n": []int{0, pick(r, []int{0, 0, 3, 30})}})
	threads := 2 + r.Intn(3)
	for t := 0; t < threads; t++ {
		var l []Op
		switch {
		case direct && t == 0:
			d := pick(r, doms)
			for k := 1 + r.Intn(2); k > 0; k-- {
				if r.chance(0.5) {
					l = append(l, Op{"op": "lattach", "l": "X", "d": d, "at": pick(r, []string{"P0", "P1"})})
				} else {
					if r.chance(0.6) && k == 1 {
						l = append(l, g.write(place[d], 0.3))
					}
					l = append(l, Op{"op": "lload", "l": "X", "d": d})
				}
			}
		case !direct && (t == 0 || t == 1 && r.chance(0.4)):
			if t == 0 && r.chance(0.4) && len(files) > 0 && threads == 2 {
				l = append(l, g.write(pick(r, files), 0.3))
			}
			for k := 1 + r.Intn(2); k > 0; k-- {
				l = append(l, conf())
			}
		default:
			for k := 1 + r.Intn(3); k > 0; k-- {
				l = append(l, g.look("", pick(r, []string{"d1", "d1", "d2"})))
			}
		}
		s.threads = append(s.threads, l)
	}
	s.after = g.all("", doms)
	return s
}

// held: thread 0 reloads a domain and is held up while it reads the file; the lookups must not wait for it.
func (g *lgen) held(id string) (*scenario, *gate) {
	r := g.r
	s := &scenario{id: id}
	doms := []string{"d1", "d2"}
	gt := newGate(false)
	s.setup = g.catalogues("P0", "P1")
	setup, place := g.locale("X", "S1", pick(r, []string{"en_US", "fr"}), doms)
	s.setup = append(s.setup, setup...)
	for t := 0; t < 5; t++ {
		s.setup = append(s.setup, Op{"op": "lnew", "l": fmt.Sprint("T", t), "how": "zero", "root": "S9", "path": "", "lang": ""})
	}
	if r.chance(0.8) {
		s.setup = append(s.setup, Op{"op": "lload", "l": "X", "d": "d1"})
	}
	if r.chance(0.4) {
		s.setup = append(s.setup, Op{"op": "lload", "l": "X", "d": "d2"})
	}
	l := "X"
	if g.pkg {
		s.setup = append(s.setup, Op{"op": "pconf", "lib": "/R/A", "lang": "en_US", "d": "d1"})
		two, _ := g.locale("Y", "S2", "es", doms)
		s.setup = append(append(s.setup, two...), Op{"op": "plocs", "ls": pick(r, [][]string{{"X"}, {"X", "Y"}, {"Y", "X"}}), "how": "locales"})
		l = ""
		if r.chance(0.5) {
			s.setup = append(s.setup, g.look("", "d1"))
		}
	}
	d := pick(r, []string{"d1", "d1", "d2"})
	s.setup = append(s.setup, g.write(place[d], 0.2), Op{"op": "hold", "root": "S1", "gate": gt, "late": r.chance(0.5)})
	load := Op{"op": "lload", "l": "X", "d": d}
	lazy := g.pkg && r.chance(0.4) // a lookup that has to load the domain
	if lazy {
		load = g.look("", d)
	}
	s.threads = append(s.threads, []Op{load})
	for t := 1 + r.Intn(4); t > 0; t-- {
		var ops []Op
		for k := 1 + r.Intn(2); k > 0; k-- {
			switch {
			case r.chance(0.2):
				ops = append(ops, Op{"op": "lattach", "l": "X", "d": pick(r, doms), "at": pick(r, []string{"P0", "P1"})})
			case r.chance(0.15):
				ops = append(ops, Op{"op": "lload", "l": "X", "d": pick(r, doms)})
			case r.chance(0.2) && t == 1:
				ops = append(ops, g.write(place[d], 0.2), Op{"op": "lload", "l": "X", "d": d})
			case r.chance(0.15) && !g.pkg:
				to := fmt.Sprint("T", t)
				ops = append(ops, Op{"op": "lbin", "l": "X", "to": to}, g.look(to, "d1"), g.look(to, "d2"))
			default:
				ops = append(ops, g.look(l, pick(r, []string{"d1", "d1", "d2"})))
			}
		}
		s.threads = append(s.threads, ops)
	}
	s.after = g.all(l, doms)
	s.serve = true
	return s, gt
}

// A loadPlan says which loads of one domain overlap (from Loads.tla), and how it all begins.
type loadPlan struct {
	K     []string `json:"k"`
	Late  bool     `json:"late"`
	Begin struct {
		Disk int `json:"disk"`
		Dom  struct {
			Src string `json:"src"`
		} `json:"dom"`
	} `json:"begin"`
}

func readLoadPlans(path string) []loadPlan {
	text, err := os.ReadFile(path)
	if err != nil {
		panic("gotextverif: driver error: " + err.Error())
	}
	var out []loadPlan
	for _, l := range strings.Split(strings.TrimSpace(string(text)), "\n") {
		var p loadPlan
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			panic("gotextverif: driver error: " + err.Error())
		}
		out = append(out, p)
	}
	return out
}

// planned makes the calls of a plan; the first is held up while it loads its file.
func (g *lgen) planned(p loadPlan, id string) (*scenario, *gate) {
	r := g.r
	s := &scenario{id: id}
	gt := newGate(false)
	lang := pick(r, []string{"en_US", "fr"})
	dir := lang
	if b := baseOf(lang); b != "" && r.chance(0.3) {
		dir = b
	}
	file := []string{"S1", dir, "LC_MESSAGES", "d1" + pick(r, []string{".po", ".po", ".mo"})}
	ats := []string{}
	for k := range p.K {
		ats = append(ats, fmt.Sprint("P", k))
	}
	s.setup = append(g.catalogues(append(ats, "P")...), Op{"op": "lnew", "l": "X", "how": "fs", "root": "S1", "path": "", "lang": lang})
	if p.Begin.Disk > 0 {
		s.setup = append(s.setup, g.write(file, 0.2))
	}
	switch p.Begin.Dom.Src {
	case "file":
		s.setup = append(s.setup, Op{"op": "lload", "l": "X", "d": "d1"})
	case "attached":
		s.setup = append(s.setup, Op{"op": "lattach", "l": "X", "d": "d1", "at": "P"})
	}
	if p.Begin.Disk > 1 {
		s.setup = append(s.setup, g.write(file, 0.2))
	}
	l := "X"
	for _, k := range p.K {
		g.pkg = g.pkg || k == "ensure"
	}
	if g.pkg {
		// a default domain that the locale does not have: configuring loads that one
		s.setup = append(s.setup, Op{"op": "pconf", "lib": "/R/none", "lang": "en_US", "d": "other"}, Op{"op": "plocs", "ls": []string{"X"}, "how": "locales"})
		l = ""
	}
	s.setup = append(s.setup, Op{"op": "hold", "root": "S1", "gate": gt, "late": p.Late})
	for t, k := range p.K {
		var ops []Op
		switch k {
		case "reload":
			ops = []Op{{"op": "lload", "l": "X", "d": "d1"}}
		case "fresh":
			ops = []Op{g.write(file, 0.2), {"op": "lload", "l": "X", "d": "d1"}}
		case "attach":
			ops = []Op{{"op": "lattach", "l": "X", "d": "d1", "at": ats[t]}}
		case "ensure":
			ops = []Op{g.look("", "d1")}
		case "look":
			ops = []Op{g.look("X", "d1")}
		}
		s.threads = append(s.threads, ops)
	}
	s.after = g.all(l, []string{"d1"})
	s.serve = true
	return s, gt
}

var (
	lKinds = []string{"lload", "lattach", "lset", "get", "getn", "istr", "istrn", "get0", "ldom", "llang", "lactual", "ltrans", "lbin"}
	pKinds = []string{"pconf", "plib", "plang", "pdom", "plocs", "get", "getn", "istr", "istrn", "get0", "istr0", "pglib", "pglangs", "pglang", "pgdom", "pglocs",
		"lload", "lattach", "lset", "llook"}
)

// raceCall is any call on locale X, or the package.
func (g *lgen) raceCall(kind string, pkg bool, t int) Op {
	r := g.r
	d := pick(r, []string{"d1", "d2"})
	l := "X"
	if pkg {
		l = ""
	}
	switch kind {
	case "get", "getn", "istr", "istrn":
		for {
			if op := g.look(l, d); op["op"] == kind {
				return op
			}
		}
	case "get0", "istr0": // in the default domain
		for {
			if op := g.look(l, d); op["op"] == kind[:len(kind)-1] {
				delete(op, "d")
				return op
			}
		}
	case "llook":
		return g.look("X", d)
	case "lload", "lset", "lactual":
		return Op{"op": kind, "l": "X", "d": d}
	case "lattach":
		return Op{"op": kind, "l": "X", "d": d, "at": pick(r, []string{"P0", "P1"}), "foreign": r.chance(0.3)}
	case "lbin":
		return Op{"op": kind, "l": "X", "to": fmt.Sprint("T", t)}
	case "pconf":
		return Op{"op": kind, "lib": pick(r, []string{"/R/A", "/R/B"}), "lang": pick(r, []string{"en_US", "es:en_US"}), "d": d}
	case "plib":
		return Op{"op": kind, "lib": pick(r, []string{"/R/A", "/R/B"})}
	case "plang":
		return Op{"op": kind, "lang": pick(r, []string{"en_US", "es:en_US"})}
	case "pdom":
		return Op{"op": kind, "d": d}
	case "plocs":
		return Op{"op": kind, "ls": pick(r, [][]string{{"X"}, {"X", "Y"}, {"Y", "X"}}), "how": "locales"}
	}
	return Op{"op": kind, "l": "X", "d": d}
}

func (g *lgen) raceFrame(pkg bool) *scenario {
	s := &scenario{}
	s.setup = g.catalogues("P0", "P1")
	one, _ := g.locale("X", "S1", "en_US", []string{"d1", "d2"})
	two, _ := g.locale("Y", "S2", "es", []string{"d1", "d2"})
	s.setup = append(append(s.setup, one...), two...)
	for t := 0; t < 4; t++ {
		s.setup = append(s.setup, Op{"op": "lnew", "l": fmt.Sprint("T", t), "how": "zero", "root": "S9", "path": "", "lang": ""})
	}
	if pkg {
		for _, lang := range []string{"en_US", "es"} {
			s.setup = append(s.setup, g.write([]string{"OS", "R", "A", lang, "d1.po"}, 0.2))
		}
		s.setup = append(s.setup, Op{"op": "pconf", "lib": "/R/A", "lang": "en_US", "d": "d1"})
		if g.r.chance(0.7) {
			s.setup = append(s.setup, g.raceCall("plocs", true, 0))
		}
	} else if g.r.chance(0.5) {
		s.setup = append(s.setup, Op{"op": "lload", "l": "X", "d": "d1"})
	}
	return s
}

func init() {
	free := func(mk func(g *lgen, id string) *scenario, name string, times, workers int) {
		drivers[name] = func(r R, count int, out *sink) {
			seeds := make([]R, count)
			for k := range seeds {
				seeds[k] = r.child()
			}
			concurrent.Store(true)
			var mu sync.Mutex
			parallel(count, workers, func(k int) {
				c := seeds[k]
				mk(&lgen{r: c}, fmt.Sprint(name, "-", k)).repeated(c, times, out, &mu)
			})
		}
	}
	free(func(g *lgen, id string) *scenario { return g.localeScenario(id, false) }, "C16l", 100, 2)
	// the package is global: one scenario at a time
	free(func(g *lgen, id string) *scenario { return g.packageScenario(id) }, "C16p", 60, 1)
	held := func(name string, pkg bool, workers int) {
		drivers[name] = func(r R, count int, out *sink) {
			seeds := make([]R, count)
			for k := range seeds {
				seeds[k] = r.child()
			}
			concurrent.Store(true)
			var mu sync.Mutex
			parallel(count, workers, func(k int) {
				g := &lgen{r: seeds[k], pkg: pkg}
				s, gt := g.held(fmt.Sprint(name, "-", k))
				x := s.staged(gt, 3*time.Millisecond)
				mu.Lock()
				defer mu.Unlock()
				x.record(s.id, out)
			})
		}
	}
	// loads that overlap as the model of the loads says
	drivers["C16g"] = func(r R, count int, out *sink) {
		type job struct {
			p loadPlan
			r R
		}
		var own, global []job
		for k := 0; k < count; k++ {
			for _, p := range readLoadPlans(os.Args[5]) {
				if slices.Contains(p.K, "ensure") {
					global = append(global, job{p, r.child()})
				} else {
					own = append(own, job{p, r.child()})
				}
			}
		}
		concurrent.Store(true)
		var mu sync.Mutex
		do := func(name string, jobs []job) func(k int) {
			return func(k int) {
				j := jobs[k]
				s, gt := (&lgen{r: j.r}).planned(j.p, fmt.Sprintf("%s-%d-%s", name, k, strings.Join(j.p.K, "+")))
				x := s.staged(gt, 3*time.Millisecond)
				mu.Lock()
				defer mu.Unlock()
				x.record(s.id, out)
			}
		}
		parallel(len(own), 16, do("C16g", own))
		parallel(len(global), 1, do("C16gp", global))
	}
	held("C16h", false, 16)
	held("C16hp", true, 1)
	// every two kinds of calls, for the race detector
	drivers["C16race"] = func(r R, count int, out *sink) {
		concurrent.Store(true)
		for k := 0; k < count; k++ {
			for _, pkg := range []bool{false, true} {
				kinds := lKinds
				if pkg {
					kinds = pKinds
				}
				for i, a := range kinds {
					for _, b := range kinds[i:] {
						g := &lgen{r: r.child()}
						s := g.raceFrame(pkg)
						s.id = fmt.Sprintf("package %v: %s with %s", pkg, a, b)
						for t, kind := range []string{a, b, a, b} {
							var l []Op
							for n := 0; n < 3; n++ {
								l = append(l, g.raceCall(kind, pkg, t))
							}
							s.threads = append(s.threads, l)
						}
						os.WriteFile(currentPath, []byte(s.id), 0o644)
						s.race()
					}
				}
			}
		}
	}
	// in a loop, for deadlocks
	drivers["C16hammer"] = func(r R, count int, out *sink) {
		concurrent.Store(true)
		for _, pkg := range []bool{false, true} {
			kinds, against := lKinds, []string{"lload", "lattach"}
			if pkg {
				kinds, against = pKinds, []string{"lset", "plang", "plocs", "get"}
			}
			for _, a := range kinds {
				for _, b := range against {
					g := &lgen{r: r.child()}
					s := g.raceFrame(pkg)
					s.id = fmt.Sprintf("package %v: %s against %s in a loop", pkg, a, b)
					for t, kind := range []string{a, a, b, a} {
						var one, l []Op
						for n := 0; n < 4; n++ {
							one = append(one, g.raceCall(kind, pkg, t))
						}
						for n := 0; n < count; n++ {
							l = append(l, one...)
						}
						s.threads = append(s.threads, l)
					}
					s.race()
				}
			}
		}
	}
}
