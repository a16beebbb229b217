package main

import (
	"fmt"
	"strings"
)

// Histories about MO images: the same messages read from a PO text and from an image.

// bothHistory reads the same messages, in different layouts, into a Po and a Mo, and looks at both.
func bothHistory(r R, id string) trace {
	g := &gen{r: r, w: newWorld(), kind: map[string]string{}, read: map[string]bool{}, pub: map[string]bool{}, snaps: map[string]bool{}, canon: r.chance(0.5)}
	g.m = mix{bad: 0.15, args: 0.1, obs: W{"get": 1, "getn": 1, "istr": 1, "istrn": 1}}
	g.v = r.vocab(6, 3, 6)
	g.do(Op{"op": "new", "o": "p", "kind": "po"})
	g.do(Op{"op": "new", "o": "m", "kind": "mo"})
	for round := 1 + r.Intn(3); round > 0; round-- {
		ms := g.file()
		if r.chance(0.1) { // big ones
			for k := 50 + r.Intn(250); k > 0; k-- {
				ms = append(ms, message{ctx: g.v.ctx(r), id: fmt.Sprint("bulk", k), forms: map[int]string{0: fmt.Sprint("t", k)}})
			}
		}
		if r.chance(0.1) {
			big := strings.Repeat(pick(r, []string{"x", "ab", "é"}), pick(r, []int{16384, 32768, 65535, 65536, 70000}))
			ms = append(ms, message{id: pick(r, g.v.ids), forms: map[int]string{0: big}})
		}
		for k := range ms {
			ms[k].refs = nil
		}
		ms = forMo(ms)
		pm := append([]message{}, ms...)
		if r.chance(0.5) { // the order in a file means nothing
			r.Shuffle(len(pm), func(i, j int) { pm[i], pm[j] = pm[j], pm[i] })
		}
		g.do(Op{"op": "parse", "o": "p", "via": "", "text": lex(r.poText(pm, r.layout()))})
		if r.chance(0.5) {
			r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		}
		g.do(Op{"op": "parsemo", "o": "m", "via": "", "img": img(r.moImage(ms))})
		g.do(Op{"op": "same", "o": "p", "to": "m"})
		keys := [][2]string{{"", "bulk7"}, {"", "unknown"}, {"", ""}}
		for _, m := range ms {
			if len(keys) < 40 {
				keys = append(keys, [2]string{m.ctx, m.id}, [2]string{g.v.ctx(r), m.id})
			}
		}
		for _, k := range keys {
			if k[1] == "" && r.chance(0.7) {
				continue
			}
			for _, l := range []string{"get", "getn", "istr", "istrn"} {
				if !r.chance(0.5) {
					continue
				}
				op := Op{"op": l, "via": g.via(), "c": k[0], "i": k[1]}
				n, p, args := limbs(r.n()), pick(r, g.v.pls), r.args()
				for _, o := range []string{"p", "m"} {
					q := Op{"o": o}
					for a, b := range op {
						q[a] = b
					}
					if l == "getn" || l == "istrn" {
						q["n"] = n
					}
					if l == "getn" {
						q["p"] = p
					}
					if (l == "get" || l == "getn") && len(args) == 3 && k[1] != "" {
						q["args"] = args
					}
					g.do(q)
				}
			}
		}
		for _, o := range []string{"p", "m"} {
			g.do(Op{"op": "headers", "o": o, "via": g.via()})
			for _, wc := range []bool{false, true} {
				g.nsnap++
				g.do(Op{"op": "snap", "o": o, "via": "", "name": fmt.Sprint("s", g.nsnap), "wc": wc})
			}
		}
	}
	return trace{id, g.ops}
}

func init() { plain("C06", bothHistory) }
