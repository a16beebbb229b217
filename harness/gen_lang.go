package main

import (
	"fmt"
	"strings"
)

// Language codes: every short string over the characters that matter, and random longer ones.

const langChars = "aE_-:@. \t"

func simp(s string) Op {
	op := Op{"op": "simp", "s": s}
	execPure(op)
	return op
}

func (r R) langCode() string {
	var b strings.Builder
	for k := r.Intn(4); k > 0; k-- {
		b.WriteString(pick(r, []string{"en", "US", "zh_Hant", "é", "fil", "_", "-", ".", "@", "euro", " ", "\t", "UTF-8", "\n", "C", "%s", "\"", "ll_CC", "日本"}))
	}
	return dress(r, b.String())
}

func init() {
	drivers["C23x"] = func(r R, count int, s *sink) {
		max := 3
		if count > 0 {
			max = 4
		}
		t := trace{}
		flush := func() {
			t.ID = fmt.Sprint("C23x-", s.n)
			s.put(t)
			t = trace{}
		}
		var rec func(p string)
		rec = func(p string) {
			op := simp(p)
			t.Ops = append(t.Ops, op)
			if got, ok := op["obs"].(string); ok && got != p {
				t.Ops = append(t.Ops, simp(got))
			}
			if len(t.Ops) > 200 {
				flush()
			}
			if len(p) < max {
				for _, c := range langChars {
					rec(p + string(c))
				}
			}
		}
		rec("")
		flush()
	}
	plain("C23", func(r R, id string) trace {
		g := &igen{r: r, w: newWorld(), pkg: map[string]bool{}}
		defer g.w.close()
		g.libs = []string{"/R/lib", "/R/other"}
		g.doms = []string{"default"}
		g.ids = []string{"one"}
		list := func() string {
			l := []string{}
			for k := 1 + r.Intn(4); k > 0; k-- {
				l = append(l, strings.ReplaceAll(r.langCode(), ":", ""))
			}
			return strings.Join(l, ":")
		}
		codes := []string{}
		for k := 0; k < 8; k++ {
			c := r.langCode()
			if r.chance(0.2) {
				c += ":" + r.langCode()
			}
			op := g.do(simp(c))
			g.do(simp(fmt.Sprint(op["obs"])))
			l := g.name("l")
			nl := Op{"op": "lnew", "l": l, "how": pick(r, []string{"os", "fs", "fspath"}), "root": "M1", "path": "", "lang": c}
			if nl["how"] == "os" {
				nl["root"], nl["path"] = "OS", "/R/lib"
			}
			g.do(nl)
			g.do(Op{"op": "llang", "l": l})
			codes = append(codes, l)
		}
		// the directory of a language is that of its simplified code
		for k := 0; k < 3; k++ {
			code := pick(r, []string{"ab", "ab_CD", "xyz_Q", "é_É"})
			p := pick(r, placesOf([]string{"OS", "R", "lib"}, code, "default", false))
			g.write(p)
			g.place = append(g.place, p)
			l := g.name("l")
			g.do(Op{"op": "lnew", "l": l, "how": "os", "root": "OS", "path": "/R/lib", "lang": dress(r, code)})
			g.do(Op{"op": "ladd", "l": l, "d": "default", "as": g.name("x")})
			g.do(Op{"op": "get", "l": l, "d": "default", "c": "", "i": "one"})
		}
		g.do(Op{"op": "pconf", "lib": "/R/lib", "lang": list(), "d": "default"})
		for k := 0; k < 5; k++ {
			g.do(Op{"op": "pglangs"})
			g.do(Op{"op": "pglang"})
			op := Op{"op": "istr", "pkg": true, "d": "default", "c": "", "i": "one"}
			ls := []string{}
			for j := r.Intn(3); j > 0; j-- {
				ls = append(ls, dress(r, pick(r, []string{"ab", "ab_CD", "xyz_Q", "xyz", "é"})))
			}
			op["langs"] = ls
			g.do(op)
			switch r.Intn(4) {
			case 0:
				g.do(Op{"op": "pconf", "lib": pick(r, g.libs), "lang": list(), "d": "default"})
			case 1:
				g.do(Op{"op": "plocs", "ls": codes[:1+r.Intn(3)], "how": ""})
			default:
				g.do(Op{"op": "plang", "lang": pick(r, []string{list(), "ab_CD.x:é_É", dress(r, "ab_CD")})})
			}
		}
		g.do(Op{"op": "pglangs"})
		g.do(Op{"op": "pglang"})
		return trace{id, g.ops}
	})
}
