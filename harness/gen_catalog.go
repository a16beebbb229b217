package main

import (
	"fmt"
	"strings"
)

// A trace is one recorded history.
type trace struct {
	ID  string `json:"id"`
	Ops []Op   `json:"ops"`
}

// A mix says how often which calls occur in a generated history.
type mix struct {
	kinds  []string
	mut    map[string]int // calls that change an object
	obs    map[string]int // calls that look at it
	steps  int            // changes per history
	probes int            // looks after each change
	sweep  bool           // look at everything at the end
	args   float64        // share of lookups with arguments
	rich   float64        // share of histories with all of fmt's syntax and arguments
	bad    float64        // share of malformed plural rules
	ids    int
	ctxs   int
}

type gen struct {
	r    R
	m    mix
	v    vocab
	w    *world
	ops  []Op
	objs []string
	kind map[string]string
	pub  map[string]bool // its public fields are those of its domain
	read map[string]bool // has been read from a file or an encoding, and may have a plural rule
	rule string
	// header spellings: either always canonical, or both headers always present
	canon bool
	nsnap int
	snaps map[string]bool
	keys  []string
	rich  bool
}

func (g *gen) do(op Op) Op {
	g.w.exec(op)
	g.ops = append(g.ops, op)
	return op
}

func wpick(r R, m map[string]int) string {
	keys := sortedKeys(m)
	t := 0
	for _, k := range keys {
		t += m[k]
	}
	if t == 0 {
		return ""
	}
	x := r.Intn(t)
	for _, k := range keys {
		if x < m[k] {
			return k
		}
		x -= m[k]
	}
	return ""
}

func (g *gen) pickRule() string {
	switch {
	case g.r.chance(g.m.bad):
		return pick(g.r, badRules)
	case g.r.chance(0.15):
		return "none"
	case g.r.chance(0.3):
		return g.r.randomRule(g.r.Intn(4))
	default:
		return pick(g.r, rules)
	}
}

func (g *gen) via() string { return pick(g.r, []string{"", "dom"}) }

func (g *gen) obj() string { return pick(g.r, g.objs) }

func (g *gen) key(op Op) Op {
	op["c"] = g.v.ctx(g.r)
	op["i"] = g.v.id(g.r, op["c"].(string))
	return op
}

func (g *gen) file() []message {
	ms := []message{}
	if g.r.chance(0.8) {
		ms = append(ms, g.r.headerMsg(g.pickRule(), g.canon))
	}
	return append(ms, g.r.messages(g.v, g.r.Intn(12))...)
}

func (g *gen) change() {
	r := g.r
	o := g.obj()
	k := wpick(r, g.m.mut)
	op := Op{"op": k, "o": o, "via": g.via()}
	if k == "parse" && r.chance(0.15) {
		op["how"] = "file"
	}
	switch k {
	case "set":
		g.key(op)["s"] = pick(r, g.v.trs)
		if r.chance(0.06) {
			op["s"] = op["i"]
		}
	case "setn":
		g.key(op)["s"] = pick(r, g.v.trs)
		op["p"] = pick(r, g.v.pls)
		if r.chance(0.06) {
			op["s"] = pick(r, []any{op["i"], op["p"]})
		}
		op["n"] = limbs(r.n())
		if !g.read[o] {
			op["n"] = r.anyN()
		}
	case "setrefs":
		l := []string{}
		for c := r.Intn(4); c > 0; c-- {
			l = append(l, pick(r, refPool))
		}
		op["i"], op["r"] = pick(r, g.v.ids), l
	case "drop":
	case "res":
		op["r"] = pick(r, []string{"zero", "one", "two", "mod3", "last", "french", "tens"})
	case "parse":
		g.read[o], g.pub[o] = true, true
		switch g.kind[o] {
		case "dom":
			return
		case "mo":
			op["op"] = "parsemo"
			op["img"] = img(r.moImage(forMo(g.file())))
		default:
			ms := g.file()
			op["text"] = lex(r.poText(ms, r.layout()))
		}
	case "bin":
		op["to"] = g.obj()
		g.read[op["to"].(string)] = true
		op["tovia"] = g.via()
		if r.chance(0.3) {
			op["how"] = "gettranslator"
		}
		g.pub[op["to"].(string)] = op["tovia"] == "" && op["how"] == nil
	case "snap":
		g.nsnap++
		n := fmt.Sprint("s", g.nsnap)
		op["name"], op["wc"] = n, r.chance(0.5)
		if r.chance(0.4) {
			op["via"] = "loc"
		}
		g.snaps[n] = true
	case "mutsnap":
		if len(g.snaps) == 0 {
			return
		}
		n := pick(r, sortedKeys(g.snaps))
		delete(g.snaps, n)
		op["name"] = n
	case "hset", "hadd":
		op["k"], op["s"] = pick(r, g.keys), pick(r, []string{"v", "w", "", "a: b", "é", "\"q\"", "back\\slash"})
	case "hdel":
		op["k"] = pick(r, g.keys)
	}
	g.do(op)
}

func (g *gen) look() {
	r := g.r
	o := g.obj()
	k := wpick(r, g.m.obs)
	op := Op{"op": k, "o": o, "via": g.via()}
	switch k {
	case "get", "append", "getn", "appendn", "istr", "istrn":
		g.key(op)
		g.lookup(op)
		return
	case "getrefs":
		op["i"] = pick(r, g.v.ids)
	case "resnap":
		if len(g.snaps) == 0 {
			return
		}
		op["name"] = pick(r, sortedKeys(g.snaps))
	case "snap":
		g.nsnap++
		op["name"], op["wc"] = fmt.Sprint("s", g.nsnap), r.chance(0.5)
		if r.chance(0.4) {
			op["via"] = "loc"
		}
		g.snaps[op["name"].(string)] = true
	case "hget", "hvals":
		op["k"] = pick(r, g.keys)
	case "headers", "text":
		if k == "text" && g.kind[o] == "mo" {
			op["via"] = "dom"
		}
		if k == "headers" && !g.pub[o] {
			op["via"] = "dom"
		}
	case "fmt":
		op["s"], op["args"] = pick(r, g.v.trs), r.args()
		op["how"] = pick(r, []string{"", "append", "args"})
		if g.rich {
			g.richArgs(op)
		}
	case "nfmt":
		op["s"], op["params"] = r.template()
		if r.chance(0.5) {
			op["s"], op["params"], op["conv"] = r.richTemplate()
		}
		op["how"] = pick(r, []string{"", "", "print"})
	}
	g.do(op)
}

// lookup completes and makes a lookup for the key already in op.
func (g *gen) lookup(op Op) {
	r := g.r
	k := op["op"].(string)
	if k == "getn" || k == "appendn" || k == "istrn" {
		op["n"] = r.anyN()
	}
	if k == "getn" || k == "appendn" {
		op["p"] = pick(r, g.v.pls)
	}
	if k == "append" || k == "appendn" {
		op["pre"] = pick(r, []string{"", "pre", "%s", "é", "longer prefix than that\n", "k\x00", "\xff\xc3", " ", "pre%", "\x00", "a\\"})
	}
	if k != "istr" && k != "istrn" && r.chance(g.m.args) {
		op["args"] = r.args()
		if g.rich {
			g.richArgs(op)
		}
	}
	g.do(op)
}

func (g *gen) sweep() {
	ctxs := append([]string{""}, g.v.ctxs...)
	for _, o := range g.objs {
		for _, c := range ctxs {
			ids := g.v.ids
			if c != "" {
				ids = append([]string{""}, ids...)
			}
			for _, i := range ids {
				for _, k := range sortedKeys(g.m.obs) {
					switch k {
					case "get", "istr", "getn", "istrn":
						if g.r.chance(0.7) {
							g.lookup(Op{"op": k, "o": o, "via": g.via(), "c": c, "i": i})
						}
					}
				}
			}
		}
		for _, k := range sortedKeys(g.m.obs) {
			switch k {
			case "snap":
				for _, wc := range []bool{false, true} {
					g.nsnap++
					g.do(Op{"op": k, "o": o, "via": "", "name": fmt.Sprint("s", g.nsnap), "wc": wc})
				}
			case "headers":
				g.do(Op{"op": k, "o": o, "via": "dom"})
				if g.pub[o] {
					g.do(Op{"op": k, "o": o, "via": ""})
				}
			case "text":
				g.do(Op{"op": k, "o": o, "via": "dom"})
			case "getrefs":
				for _, i := range g.v.ids {
					g.do(Op{"op": k, "o": o, "via": "dom", "i": i})
				}
			}
		}
	}
	for _, n := range sortedKeys(g.snaps) {
		g.do(Op{"op": "resnap", "name": n})
	}
}

func history(r R, m mix, id string) trace {
	g := &gen{r: r, m: m, w: newWorld(), kind: map[string]string{}, read: map[string]bool{}, pub: map[string]bool{}, snaps: map[string]bool{}, canon: r.chance(0.5)}
	defer g.w.close()
	g.v = r.vocab(m.ids, m.ctxs, 6)
	if g.rich = r.chance(m.rich); g.rich {
		g.richTexts()
	}
	g.keys = []string{"Language", "Plural-Forms", "X-Custom", "x-custom", "Content-Type", "New", "content-type"}
	for k := 0; k < 1+r.Intn(2); k++ {
		o := fmt.Sprint("o", k)
		g.objs = append(g.objs, o)
		g.kind[o] = pick(r, m.kinds)
		how := g.kind[o]
		if how != "dom" && r.chance(0.15) {
			how += pick(r, []string{"fs", "bare"})
		}
		g.do(Op{"op": "new", "o": o, "kind": how})
	}
	steps := m.steps/2 + r.Intn(m.steps+1)
	for k := 0; k < steps; k++ {
		g.change()
		for p := r.Intn(2*m.probes + 1); p > 0; p-- {
			g.look()
		}
	}
	if m.sweep {
		g.sweep()
	}
	return trace{ID: id, Ops: g.ops}
}

// template makes a named format and its parameters.
func (r R) template() (string, []any) {
	names := []string{"a", "name", "Name", "x1", "under_score", "a1", "1", "nam", "s", "d"}
	params := []any{}
	kind := map[string]string{}
	for _, p := range r.Perm(len(names))[:1+r.Intn(5)] {
		v := map[string]any{"t": "i", "v": r.Intn(2000) - 500}
		if r.chance(0.5) {
			v = map[string]any{"t": "s", "v": pick(r, []string{"arg", "", "%s", "a b", "%(a)s", "longer text", "%%", "100%", "a)s"})}
		}
		params = append(params, []any{names[p], v})
		kind[names[p]] = v["t"].(string)
	}
	var b strings.Builder
	for k := r.Intn(7); k >= 0; k-- {
		switch r.Intn(4) {
		case 0:
			b.WriteString("%%")
		case 1:
			b.WriteString(pick(r, []string{"text", " ", "(a)s", "é", "(", ")", "s", "d", ".", "\n", "name", "{x}", "(name)"}))
		default:
			p := params[r.Intn(len(params))].([]any)
			n := p[0].(string)
			verb, mod := "s", ""
			if kind[n] == "i" {
				verb = "d"
			}
			if r.chance(0.3) {
				verb = "v"
			} else if r.chance(0.1) {
				verb = pick(r, []string{"s", "d"})
			}
			if r.chance(0.3) {
				mod = pick(r, []string{"5", "12", "1"})
				if kind[n] == "i" && verb == "d" && r.chance(0.5) {
					mod = "0" + mod
				}
				if kind[n] == "s" && verb == "s" && r.chance(0.5) {
					mod = pick(r, []string{".0", ".2", ".10"})
				}
			}
			b.WriteString("%(" + n + ")" + mod + verb)
		}
	}
	return b.String(), params
}
