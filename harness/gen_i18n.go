package main

import (
	"fmt"
	"strings"
)

// Generators of histories with files, locales and the package.

// langs a history plays with: {code as given, other directories that could be confused with it}
var langPool = []string{"en_US", "en_GB", "en", "de_AT", "de", "de-AT", "zh_Hant_TW", "fil_PH", "fil", "nan", "pt_BR", "fr", "es_419", "_x", "ENG"}

func dress(r R, l string) string {
	if !r.chance(0.3) {
		return l
	}
	return pick(r, []string{"", " ", "\t"}) + l + pick(r, []string{".UTF-8", "@euro", ".UTF-8@euro", "@a.b", " ", " .x", "@"})
}

type igen struct {
	r     R
	w     *world
	ops   []Op
	langs []string // language codes
	doms  []string
	libs  []string // OS paths
	place []filePlace
	locs  []string
	objs  []string // catalogues one can set in
	pos   []string // those one can attach
	ids   []string
	ctxs  []string
	n     int
	tag   int
	pkg   map[string]bool // locales that are the package's now
	argsP float64
	verbs float64                                 // texts that have some
	at    map[string]func(dom string) []filePlace // of a locale: where its files can be
	bs    [][]string
}

// a filePlace is where a file can be
type filePlace struct {
	segs []string
	ext  string
}

func (g *igen) do(op Op) Op {
	g.w.exec(op)
	g.ops = append(g.ops, op)
	return op
}

// content makes the messages of a file; its texts name the file and its version.
func (g *igen) content(where string) []message {
	r := g.r
	g.tag++
	t := fmt.Sprintf("%s#%d", where, g.tag)
	ms := []message{}
	if r.chance(0.8) {
		ms = append(ms, r.headerMsg(pick(r, []string{"n != 1", "n > 1", "n==1 ? 0 : n==2 ? 1 : 2", "0", "none", "n==0 ? 1 : 0", "n==1", "n==1 ? 2 : n==0"}), true))
	}
	for _, c := range append([]string{""}, g.ctxs...) {
		for _, i := range g.ids {
			if r.chance(0.35) {
				continue
			}
			m := message{ctx: c, id: i, forms: map[int]string{}}
			if r.chance(0.6) {
				m.pl = i + "s"
				for f := 0; f < 3; f++ {
					if r.chance(0.8) {
						m.forms[f] = fmt.Sprintf("%s:%s:%s[%d]", t, c, i, f)
					}
				}
			} else if r.chance(0.85) {
				m.forms[0] = fmt.Sprintf("%s:%s:%s", t, c, i)
			}
			if r.chance(g.verbs) {
				for f := range m.forms {
					m.forms[f] += pick(r, []string{" %s", " %d", " 100%", " %%"})
					if r.chance(g.argsP) {
						m.forms[f] += pick(r, []string{" %s", " %d", " %v", " %[1]d", " %"})
					}
				}
			}
			for f := range m.forms {
				m.forms[f] = fixPct(m.forms[f])
			}
			ms = append(ms, m)
		}
	}
	return ms
}

func (g *igen) write(p filePlace) {
	r := g.r
	ms := g.content(strings.Join(p.segs, "/"))
	if r.chance(0.03) {
		ms = nil // an empty file is a file
	}
	if p.ext == "mo" {
		g.do(Op{"op": "writemo", "path": p.segs, "img": img(r.moImage(forMo(ms)))})
	} else {
		g.do(Op{"op": "write", "path": p.segs, "text": lex(r.poText(ms, layout{}))})
	}
}

func segsOf(root, path string) []string {
	s := []string{root}
	for _, x := range strings.Split(path, "/") {
		if x != "" && x != "." {
			s = append(s, x)
		}
	}
	return s
}

func cp(s []string, more ...string) []string { return append(append([]string{}, s...), more...) }

func baseOf(l string) string {
	if i := strings.IndexAny(l, "_-"); i > 0 {
		return l[:i]
	}
	return ""
}

// places lists where a locale's files of a domain can be, and some places where they can't.
func placesOf(base []string, lang, dom string, decoys bool) []filePlace {
	out := []filePlace{}
	dirs := []string{lang}
	if b := baseOf(lang); b != "" {
		dirs = append(dirs, b)
	}
	for _, ext := range []string{"po", "mo"} {
		for _, d := range dirs {
			out = append(out, filePlace{cp(base, d, "LC_MESSAGES", dom+"."+ext), ext}, filePlace{cp(base, d, dom+"."+ext), ext})
		}
	}
	if decoys {
		for _, ext := range []string{"po", "mo"} {
			f := dom + "." + ext
			out = append(out,
				filePlace{cp(base, lang, "lc_messages", f), ext},
				filePlace{cp(base, f), ext},
				filePlace{cp(base, "LC_MESSAGES", f), ext},
				filePlace{cp(base, lang, "LC_MESSAGES", f+"~"), ext},
				filePlace{cp(base, lang, "LC_MESSAGES", dom+".pot"), "po"},
				filePlace{cp(base, lang, "LC_MESSAGES", dom+"2."+ext), ext},
				filePlace{cp(base, strings.ToLower(lang)+"x", "LC_MESSAGES", f), ext})
			if len(lang) > 2 {
				out = append(out, filePlace{cp(base, lang[:2], "LC_MESSAGES", f), ext}, filePlace{cp(base, lang[:2], f), ext})
			}
			if b := baseOf(lang); b != "" {
				out = append(out, filePlace{cp(base, b+"_XX", "LC_MESSAGES", f), ext}, filePlace{cp(base, b+"_", f), ext})
			}
			if i := strings.LastIndexAny(lang, "_-"); i > 0 && lang[:i] != baseOf(lang) {
				out = append(out, filePlace{cp(base, lang[:i], "LC_MESSAGES", f), ext})
			}
		}
	}
	return out
}

func newIgen(r R, nlang int) *igen {
	g := &igen{r: r, w: newWorld(), verbs: 0.2, pkg: map[string]bool{}, at: map[string]func(string) []filePlace{}}
	p := r.Perm(len(langPool))
	for k := 0; k < nlang; k++ {
		g.langs = append(g.langs, langPool[p[k]])
	}
	g.doms = []string{"default", "extra", pick(r, []string{"Default", "a.b", "é", "default2", "d e", "messages"})}
	g.ids = []string{"one", "two", pick(r, []string{"One", "on", "two ", "é", "100%"})}
	g.ctxs = []string{"c", pick(r, []string{"C", "one", "c\x04", emptyCtx})}
	if g.ctxs[1] == "c\x04" {
		g.ctxs[1] = "cc"
	}
	return g
}

func (g *igen) name(p string) string { g.n++; return fmt.Sprint(p, g.n) }

// locale makes a locale of some kind.
func (g *igen) locale(lang string) string {
	r := g.r
	l := g.name("l")
	op := Op{"op": "lnew", "l": l, "lang": dress(r, lang)}
	switch r.Intn(5) {
	case 0:
		op["how"], op["root"], op["path"] = "fs", pick(r, []string{"M1", "D1"}), ""
	case 1:
		op["how"], op["root"], op["path"] = "fspath", pick(r, []string{"M1", "D1"}), pick(r, []string{"sub", "sub/deep", "", "sub/"})
	default:
		op["how"], op["root"], op["path"] = "os", "OS", pick(r, g.libs)
	}
	g.do(op)
	g.at[l] = func(dom string) []filePlace {
		return placesOf(segsOf(op["root"].(string), op["path"].(string)), lang, dom, false)
	}
	g.locs = append(g.locs, l)
	return l
}

func (g *igen) bases() [][]string {
	out := [][]string{}
	for _, l := range g.libs {
		out = append(out, segsOf("OS", l))
	}
	return append(out, []string{"M1"}, []string{"D1"}, []string{"M1", "sub"}, []string{"D1", "sub", "deep"})
}

// scatter writes some files of some languages and domains.
func (g *igen) scatter(bases [][]string, density float64, decoys bool) {
	g.bs = bases
	for _, b := range bases {
		for _, l := range g.langs {
			for _, d := range g.doms {
				for _, p := range placesOf(b, l, d, decoys) {
					if g.r.chance(density) {
						g.write(p)
						g.place = append(g.place, p)
					}
				}
			}
		}
	}
}

func (g *igen) q(op Op) Op {
	r := g.r
	op["i"] = pick(r, append([]string{"unknown"}, g.ids...))
	op["c"] = ""
	if r.chance(0.4) {
		op["c"] = pick(r, g.ctxs)
	}
	switch op["op"] {
	case "getn", "istrn":
		op["n"] = limbs(r.n())
		if _, ok := op["l"]; ok {
			op["n"] = r.anyN()
		}
	}
	if op["op"] == "getn" {
		op["p"] = op["i"].(string) + "s"
	}
	if (op["op"] == "get" || op["op"] == "getn") && r.chance(g.argsP) {
		op["args"] = r.args()
	}
	return op
}

var lookOps = []string{"get", "getn", "istr", "istrn"}

func (g *igen) lookLoc(l string) {
	op := Op{"op": pick(g.r, lookOps), "l": l}
	if g.r.chance(0.6) {
		op["d"] = pick(g.r, append([]string{pick(g.r, []string{"nodomain", ""})}, g.doms...))
	}
	g.do(g.q(op))
}

// allLoc looks at everything in a locale.
func (g *igen) allLoc(l string) {
	for _, d := range g.doms {
		for _, c := range append([]string{""}, g.ctxs...) {
			for _, i := range g.ids {
				k := pick(g.r, lookOps)
				op := g.q(Op{"op": k, "l": l, "d": d})
				op["c"], op["i"] = c, i
				g.do(op)
			}
		}
	}
	g.do(Op{"op": "ldoms", "l": l})
	g.do(Op{"op": "ltrans", "l": l})
	g.do(Op{"op": "ldom", "l": l})
	g.lookLoc(l)
}

// ---- C11: search order --------------------------------------------------------

// searchAll is every set of files in the eight (or four) places of one locale.
func searchAll(name string) {
	drivers[name] = func(r R, count int, s *sink) {
		k := 0
		hows := []Op{
			{"how": "os", "root": "OS", "path": "/R/lib"}, {"how": "fs", "root": "M1", "path": ""},
			{"how": "fspath", "root": "M1", "path": "sub"}, {"how": "fs", "root": "D1", "path": ""},
			{"how": "os", "root": "OS", "path": "/R/lib/"},
		}
		for _, lang := range []string{"xx_YY", "xx", "xxx_YY", "xxx"} {
			for set := 0; set < 1<<len(placesOf(nil, lang, "dom", false)); set++ {
				if count > 0 && k >= count {
					return
				}
				c := r.child()
				how := hows[set%len(hows)]
				if count > 0 { // a sample: not always the first ones
					how = pick(c, hows)
				}
				g := &igen{r: c, w: newWorld(), ids: []string{"one"}, doms: []string{"dom"}}
				g.ctxs = nil
				base := segsOf(how["root"].(string), how["path"].(string))
				l := Op{"op": "lnew", "l": "l", "lang": lang}
				for f, v := range how {
					l[f] = v
				}
				g.do(l)
				for b, p := range placesOf(base, lang, "dom", false) {
					if set&(1<<b) != 0 {
						w := strings.Join(p.segs, "/")
						ms := []message{{id: "who", forms: map[int]string{0: w}}}
						if c.chance(0.1) {
							ms = nil
						}
						if p.ext == "mo" {
							g.do(Op{"op": "writemo", "path": p.segs, "img": img(c.moImage(ms))})
						} else {
							g.do(Op{"op": "write", "path": p.segs, "text": lex(c.poText(ms, layout{}))})
						}
					} else if c.chance(0.1) {
						g.write(filePlace{cp(p.segs[:len(p.segs)-1], "other."+p.ext), p.ext})
					}
				}
				g.do(Op{"op": "lactual", "l": "l", "d": "dom"})
				g.do(Op{"op": "ladd", "l": "l", "d": "dom", "as": "x"})
				g.do(Op{"op": "get", "l": "l", "d": "dom", "i": "who", "c": ""})
				g.do(Op{"op": "get", "l": "l", "i": "who", "c": ""})
				g.w.close()
				s.put(trace{fmt.Sprintf("%s-%s-%d", name, lang, set), g.ops})
				k++
			}
		}
	}
}

func searchHistory(r R, id string) trace {
	g := newIgen(r, 3)
	defer g.w.close()
	g.libs = []string{"/R/lib", "/R/lib/nested"}
	bs := g.bases()
	r.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	g.scatter(bs[:2], 0.08, true)
	for k := 0; k < 3+r.Intn(3); k++ {
		l := g.locale(pick(r, g.langs))
		for j := 0; j < 4; j++ {
			d := pick(r, g.doms)
			g.do(Op{"op": "lactual", "l": l, "d": d})
			g.do(Op{"op": "ladd", "l": l, "d": d, "as": g.name("x")})
			for p := 0; p < 4; p++ {
				g.lookLoc(l)
			}
			if r.chance(0.3) && len(g.place) > 0 {
				g.touch()
			}
		}
		g.allLoc(l)
	}
	return trace{id, g.ops}
}

// touch changes, removes or creates a file.
func (g *igen) touch() {
	r := g.r
	if r.chance(0.3) { // one that was not there before
		p := pick(r, placesOf(pick(r, g.bs), pick(r, g.langs), pick(r, g.doms), false))
		g.write(p)
		g.place = append(g.place, p)
		return
	}
	if len(g.place) == 0 {
		return
	}
	p := pick(r, g.place)
	if r.chance(0.35) {
		g.do(Op{"op": "rm", "path": p.segs})
	} else {
		g.write(p)
	}
}

// ---- C12 and others: one or more locales ----------------------------------------

// formatted makes the history one of texts with verbs and lookups with arguments.
func (g *igen) formatted() {
	g.argsP, g.verbs = 0.7, 0.7
	g.ids = append(g.ids, "%d of %s", "100%")
}

func localeHistory(bin, set, args bool) func(r R, id string) trace {
	return func(r R, id string) trace {
		g := newIgen(r, 2)
		defer g.w.close()
		g.argsP = 0.15
		if args {
			g.formatted()
		}
		g.libs = []string{"/R/lib", "/R/lib2"}
		g.scatter(g.bases(), 0.08, false)
		for k := 0; k < 2; k++ {
			o := g.name("o")
			g.do(Op{"op": "new", "o": o, "kind": pick(r, []string{"po", "po", "mo"})})
			g.pos = append(g.pos, o)
			g.objs = append(g.objs, o)
		}
		for k := 0; k < 1+r.Intn(3); k++ {
			g.locale(pick(r, g.langs))
		}
		if bin {
			l := g.name("l")
			g.do(Op{"op": "lnew", "l": l, "how": "zero", "root": "OS", "path": "", "lang": ""})
			g.locs = append(g.locs, l)
		}
		for k := 0; k < 12+r.Intn(12); k++ {
			g.localeStep(bin, set)
			for p := r.Intn(5); p > 0; p-- {
				g.lookLoc(pick(r, g.locs))
			}
		}
		for _, l := range g.locs {
			g.allLoc(l)
		}
		return trace{id, g.ops}
	}
}

func (g *igen) localeStep(bin, set bool) {
	r := g.r
	l := pick(r, g.locs)
	d := pick(r, g.doms)
	switch k := r.Intn(20); {
	case k < 7:
		as := g.name("x")
		op := g.do(Op{"op": "ladd", "l": l, "d": d, "as": as})
		if _, ok := g.w.objs[as]; ok && op["panic"] == nil {
			g.objs = append(g.objs, as)
		}
	case k < 9:
		g.do(Op{"op": "lattach", "l": l, "d": d, "at": pick(r, append([]string{""}, cp(g.pos, g.pos...)...)), "foreign": r.chance(0.3)})
	case k < 11:
		g.do(Op{"op": "lset", "l": l, "d": pick(r, append([]string{"nodomain"}, g.doms...))})
	case k < 12:
		g.touch()
	case k < 13: // a file of this domain comes, moves, changes or goes before it is added again
		if g.at[l] == nil {
			return
		}
		for t := 1 + r.Intn(2); t > 0; t-- {
			if p := pick(r, g.at[l](d)); r.chance(0.8) {
				g.write(p)
				g.place = append(g.place, p)
			} else {
				g.do(Op{"op": "rm", "path": p.segs})
			}
		}
		g.do(Op{"op": "lactual", "l": l, "d": d})
		g.do(Op{"op": "ladd", "l": l, "d": d, "as": g.name("x")})
		for t := 0; t < 3; t++ {
			g.do(g.q(Op{"op": pick(r, lookOps), "l": l, "d": d}))
		}
	case k < 16:
		if set {
			o := pick(r, g.objs)
			g.tag++
			op := Op{"op": "set", "o": o, "via": "dom", "c": "", "i": pick(r, g.ids), "s": fmt.Sprint("set#", g.tag)}
			if r.chance(0.4) {
				op["c"] = pick(r, g.ctxs)
			}
			if r.chance(0.4) {
				op["op"], op["p"], op["n"] = "setn", op["i"].(string)+"s", limbs(r.n())
			}
			g.do(op)
		}
	case k < 18:
		o := pick(r, g.pos)
		if obj := g.w.objs[o]; obj.kind == "po" {
			g.do(Op{"op": "parse", "o": o, "via": "", "text": lex(r.poText(g.content("mem"), layout{}))})
		} else {
			g.do(Op{"op": "parsemo", "o": o, "via": "", "img": img(r.moImage(forMo(g.content("mem"))))})
		}
	default:
		if bin {
			g.do(Op{"op": "lbin", "l": l, "to": pick(r, g.locs)})
		} else {
			g.do(Op{"op": "ldoms", "l": l})
		}
	}
}

// ---- the package --------------------------------------------------------------------

func (g *igen) langList() string {
	r := g.r
	l := []string{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		l = append(l, dress(r, pick(r, g.langs)))
	}
	if r.chance(0.06) {
		k := r.Intn(len(l) + 1)
		l = append(l[:k:k], append([]string{""}, l[k:]...)...)
	}
	return strings.Join(l, ":")
}

func (g *igen) lookPkg() {
	r := g.r
	op := Op{"op": pick(r, lookOps), "pkg": true}
	if r.chance(0.55) {
		op["d"] = pick(r, append([]string{pick(r, []string{"nodomain", ""})}, g.doms...))
	}
	g.q(op)
	if op["op"] == "istr" || op["op"] == "istrn" {
		l := []string{}
		if r.chance(0.6) {
			for k := 1 + r.Intn(3); k > 0; k-- {
				x := pick(r, append([]string{"xx", "en"}, g.langs...))
				if b := baseOf(x); b != "" && r.chance(0.3) {
					x = b
				}
				if r.chance(0.1) {
					x = pick(r, []string{"", " ", ".UTF-8", "@euro", "\t"})
				}
				l = append(l, dress(r, x))
			}
		}
		op["langs"] = l
	}
	g.do(op)
}

func (g *igen) getters() {
	for _, k := range []string{"pglib", "pglangs", "pglang", "pgdom", "pglocs"} {
		if g.r.chance(0.6) {
			g.do(Op{"op": k})
		}
	}
}

// reconfigure makes one call that changes the package configuration.
func (g *igen) reconfigure() {
	r := g.r
	switch k := r.Intn(12); {
	case k < 3:
		g.do(Op{"op": "pconf", "lib": pick(r, g.libs), "lang": g.langList(), "d": pick(r, g.doms)})
	case k < 5:
		g.do(Op{"op": "plib", "lib": pick(r, g.libs)})
	case k < 7:
		g.do(Op{"op": "plang", "lang": g.langList()})
	case k < 9:
		g.do(Op{"op": "pdom", "d": pick(r, g.doms)})
	default:
		ls := []string{}
		for c := 1 + r.Intn(3); c > 0; c-- {
			l := g.locale(pick(r, g.langs))
			for j := r.Intn(3); j > 0; j-- {
				if r.chance(0.6) {
					g.do(Op{"op": "ladd", "l": l, "d": pick(r, g.doms), "as": g.name("x")})
				} else {
					o := g.name("o")
					g.do(Op{"op": "new", "o": o, "kind": "po"})
					g.do(Op{"op": "parse", "o": o, "via": "", "text": lex(r.poText(g.content("mem"), layout{}))})
					g.do(Op{"op": "lattach", "l": l, "d": pick(r, g.doms), "at": o, "foreign": r.chance(0.3)})
				}
			}
			ls = append(ls, l)
		}
		how := ""
		if len(ls) == 1 && r.chance(0.5) {
			how = "storage"
		}
		g.do(Op{"op": "plocs", "ls": ls, "how": how})
	}
}

func pkgHistory(early, changes, args bool, looks int) func(r R, id string) trace {
	return func(r R, id string) trace {
		g := newIgen(r, 4)
		defer g.w.close()
		g.argsP = 0.1
		if args {
			g.formatted()
		}
		g.libs = []string{"/R/lib", "/R/lib/", "/R/other", "/R/missing"}
		g.scatter([][]string{{"OS", "R", "lib"}, {"OS", "R", "other"}, {"M1"}}, 0.14, false)
		if early {
			for k := r.Intn(3); k > 0; k-- {
				g.lookPkg()
			}
		}
		steps := 1
		if changes {
			steps = 3 + r.Intn(5)
		}
		for k := 0; k < steps; k++ {
			if !changes || k == 0 && r.chance(0.7) {
				g.do(Op{"op": "pconf", "lib": pick(r, g.libs[:3]), "lang": g.langList(), "d": pick(r, g.doms)})
			} else {
				g.reconfigure()
			}
			g.getters()
			for p := looks/2 + r.Intn(looks); p > 0; p-- {
				g.lookPkg()
			}
			if changes {
				for t := r.Intn(3); t > 0; t-- {
					g.touch() // the next setter sees it
				}
			}
		}
		return trace{id, g.ops}
	}
}

func init() {
	searchAll("C11x")
	plain("C11", searchHistory)
	plain("C12", localeHistory(false, true, false))
	plain("C09l", localeHistory(true, true, false))
	plain("C10l", localeHistory(false, true, true))
	forked("C10p", pkgHistory(false, true, true, 16))
	forked("C13", pkgHistory(true, true, false, 8))
	forked("C14", pkgHistory(false, false, false, 60))
	forked("C24", pkgHistory(false, true, false, 16))
}

// plain registers a driver that makes independent histories.
func plain(name string, mk func(r R, id string) trace) {
	drivers[name] = func(r R, count int, s *sink) {
		for k := 0; k < count; k++ {
			s.put(mk(r.child(), fmt.Sprintf("%s-%d", name, k)))
		}
	}
}
