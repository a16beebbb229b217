package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"
)

// Histories that TLC made while it explored a model: the same calls are made on real objects, and after
// them everything is looked at.
//
// The file has one JSON value per line: first the calls of the model, then histories as lists of their
// numbers.

func readScenarios(path string) (ops []Op, hist [][]int) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic("gotextverif: driver error: " + err.Error())
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(nil, 1<<26)
	for sc.Scan() {
		var v any = &ops
		if ops != nil {
			hist = append(hist, nil)
			v = &hist[len(hist)-1]
		}
		if err := json.Unmarshal(sc.Bytes(), v); err != nil {
			panic("gotextverif: driver error: " + err.Error())
		}
	}
	return
}

// mcCatalog replays histories of catalogues; look says what to look at: letters of
// (g)et, plural (n), (i)s translated, (r)efs, (s)napshots, (t)ext, (h)eaders.
func mcCatalog(r R, ops []Op, h []int, look, id string) trace {
	w := newWorld()
	t := trace{ID: id}
	do := func(op Op) {
		w.exec(op)
		t.Ops = append(t.Ops, op)
	}
	has := func(c string) bool { return strings.Contains(look, c) }
	via := func() string { return pick(r, []string{"", "dom"}) }
	ids, ctxs, objs := []string{"a", "b"}, []string{"", "c", emptyCtx}, []string{}
	kinds := []string{"po"}
	mem := map[string]bool{}
	for _, op := range ops {
		mem[str(op, "o")] = true
		if op["op"] == "parse" {
			kinds = []string{"po"}
		}
	}
	objs = sortedKeys(mem)
	for _, o := range objs {
		do(Op{"op": "new", "o": o, "kind": pick(r, kinds)})
	}
	snaps := 0
	snap := func() {
		for _, o := range objs {
			for _, wc := range []bool{false, true} {
				snaps++
				do(Op{"op": "snap", "o": o, "via": "", "wc": wc, "name": fmt.Sprint("s", snaps)})
			}
		}
	}
	for _, k := range h {
		if has("s") && r.chance(0.3) {
			snap()
		}
		op := copyOps(ops[k-1 : k])[0]
		op["via"] = via()
		op["tovia"] = via()
		do(op)
	}
	for _, o := range objs {
		for _, c := range ctxs {
			for _, i := range ids {
				q := func(kind string, n int) {
					op := Op{"op": kind, "o": o, "via": via(), "c": c, "i": i}
					if n >= 0 {
						op["n"], op["p"] = []int{0, n}, "many"
					}
					do(op)
				}
				if has("g") {
					q("get", -1)
				}
				if has("i") {
					q("istr", -1)
				}
				for _, n := range []int{0, 1, 2} {
					if has("n") {
						q("getn", n)
					}
					if has("i") {
						q("istrn", n)
					}
				}
			}
		}
		for _, i := range ids {
			if has("r") {
				do(Op{"op": "getrefs", "o": o, "via": via(), "i": i})
			}
		}
		if has("t") {
			do(Op{"op": "text", "o": o, "via": via()})
		}
		if has("h") {
			do(Op{"op": "headers", "o": o, "via": "dom"})
		}
	}
	if has("s") {
		snap()
		for k := 1; k <= snaps; k++ {
			do(Op{"op": "resnap", "name": fmt.Sprint("s", k)})
		}
	}
	return t
}

// mcPo makes a text of these lines, between two entries or after one.
func mcPo(r R, lines []Op, h []int) Op {
	t := []string{}
	line := func(atoms ...string) {
		if r.chance(0.05) {
			t = append(t, pick(r, []string{" ", "\t"}))
		}
		t = append(t, atoms...)
		if r.chance(0.1) {
			t = append(t, pick(r, []string{" ", "\t", "\r"}))
		}
		t = append(t, "\n")
	}
	line("msgid", " ", "\"", "y", "\"")
	line("msgstr", " ", "\"", "Y", "\"")
	for _, k := range h {
		line(strs(lines[k-1]["text"])...)
	}
	if r.chance(0.8) {
		line("msgid", " ", "\"", "z", "\"")
		line("msgstr", " ", "\"", "Z", "\"")
	}
	if r.chance(0.3) {
		t = t[:len(t)-1]
	}
	return Op{"op": "reads", "text": t}
}

// rooted puts the files of a model, which are below M1, somewhere else.
func rooted(op Op, root []string) Op {
	op = copyOps([]Op{op})[0]
	if p := strs(op["path"]); len(p) > 0 {
		op["path"] = append(append([]string{}, root...), p[1:]...)
	}
	return op
}

// mcLocale replays histories of a locale.
func mcLocale(r R, ops []Op, h []int, id string) trace {
	w := newWorld()
	defer w.close()
	t := trace{ID: id}
	do := func(op Op) {
		w.exec(op)
		t.Ops = append(t.Ops, op)
	}
	do(Op{"op": "new", "o": "po", "kind": pick(r, []string{"po", "mo"})})
	root := []string{pick(r, []string{"M1", "M1", "D1"})}
	if r.chance(0.3) {
		root = []string{"OS", "R"}
		do(Op{"op": "lnew", "l": "l", "how": "os", "root": "OS", "path": "/R", "lang": "de_DE"})
	} else {
		do(Op{"op": "lnew", "l": "l", "how": "fs", "root": root[0], "path": "", "lang": "de_DE"})
	}
	for _, k := range h {
		op := rooted(ops[k-1], root)
		if op["op"] == "parse" || op["op"] == "set" {
			op["via"] = "dom"
			if op["op"] == "parse" && w.objs["po"].po == nil {
				op["op"], op["i"], op["s"], op["c"] = "set", "b", "parsed", ""
			}
		}
		do(op)
	}
	for _, d := range []string{"", "d", "e", "none"} {
		for _, i := range []string{"a", "b"} {
			for _, k := range []string{"get", "istr"} {
				op := Op{"op": k, "l": "l", "i": i, "c": ""}
				if d != "" {
					op["d"] = d
				}
				do(op)
			}
		}
		do(Op{"op": "lactual", "l": "l", "d": d})
	}
	for _, k := range []string{"ldom", "ldoms", "llang", "ltrans"} {
		do(Op{"op": k, "l": "l"})
	}
	return t
}

// mcPackage replays histories of the package, all in one process: each begins with a configuration.
func mcPackage(r R, ops []Op, h []int, id string) trace {
	w := newWorld()
	defer w.close()
	t := trace{ID: id}
	do := func(op Op) {
		w.exec(op)
		t.Ops = append(t.Ops, op)
	}
	do(Op{"op": "lnew", "l": "u", "how": "os", "root": "OS", "path": "/R/A", "lang": "fr"})
	for _, k := range h {
		op := copyOps(ops[k-1 : k])[0]
		if op["op"] == "plocs" {
			op["how"] = pick(r, []string{"locales", "storage"})
		}
		do(op)
	}
	for _, k := range []string{"pglib", "pglangs", "pglang", "pgdom"} {
		do(Op{"op": k})
	}
	for _, k := range r.Perm(9) {
		i, d, q := []string{"a", "b", "none"}[k%3], []string{"", "d", "e"}[k/3], Op{"pkg": true, "c": ""}
		q["i"] = i
		if d != "" {
			q["d"] = d
		}
		g, s, l := copyOps([]Op{q})[0], copyOps([]Op{q})[0], copyOps([]Op{q})[0]
		g["op"], s["op"], l["op"] = "get", "istr", "istr"
		s["langs"], l["langs"] = []string{}, pick(r, [][]string{{"fr"}, {"de"}, {"de", "fr"}, {"fr", "xx"}})
		do(g)
		do(s)
		do(l)
	}
	do(Op{"op": "pglocs"})
	return t
}

func init() {
	drivers["mc-package"] = func(r R, count int, out *sink) {
		ops, hist := readScenarios(os.Args[5])
		for k, h := range hist {
			out.put(mcPackage(r.child(), ops, h, fmt.Sprint("mc-", k, h)))
		}
	}
	drivers["mc-locale"] = func(r R, count int, out *sink) {
		ops, hist := readScenarios(os.Args[5])
		for k, h := range hist {
			out.put(mcLocale(r.child(), ops, h, fmt.Sprint("mc-", k, h)))
		}
	}
	// usage: ... count file scenarios
	drivers["mc-po"] = func(r R, count int, out *sink) {
		lines, hist := readScenarios(os.Args[5])
		for len(hist) > 0 {
			n := min(40, len(hist))
			w, t := newWorld(), trace{ID: fmt.Sprint("mc", hist[0])}
			for _, h := range hist[:n] {
				op := mcPo(r, lines, h)
				w.exec(op)
				t.Ops = append(t.Ops, op)
			}
			hist = hist[n:]
			out.put(t)
		}
	}
	// usage: ... count file scenarios look
	drivers["mc-catalog"] = func(r R, count int, out *sink) {
		ops, hist := readScenarios(os.Args[5])
		for k, h := range hist {
			out.put(mcCatalog(r.child(), ops, h, os.Args[6], fmt.Sprint("mc-", k, h)))
		}
	}
}
