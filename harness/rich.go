package main

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
)

// Arguments of every kind, for texts with all of fmt's syntax. What fmt makes of a text and arguments is
// recorded next to the call, from fmt itself.

type stringer struct{ s string }

func (s stringer) String() string { return "<" + s.s + ">" }

type panicky struct{}

func (panicky) String() string { panic("no") }

type formatter struct{ s string }

func (f formatter) Format(s fmt.State, verb rune) {
	w, hw := s.Width()
	fmt.Fprintf(s, "[%s %c %d %v]", f.s, verb, w, hw)
}

type pair struct {
	A int
	B string
}

var richKinds = []string{"float", "bool", "nil", "error", "stringer", "panic", "format", "strings", "ints", "map", "rune", "byte", "bytes", "struct", "pointer", "big", "u64", "list"}

func rich(m map[string]any) bool { _, ok := m["k"]; return ok }

func richVar(m map[string]any) interface{} {
	s := m["v"].(string)
	n, _ := strconv.Atoi(s)
	switch m["k"] {
	case "float":
		return float64(n) / 8
	case "bool":
		return n%2 == 0
	case "nil":
		return nil
	case "error":
		return errors.New("error " + s)
	case "stringer":
		return stringer{s}
	case "panic":
		return panicky{}
	case "format":
		return formatter{s}
	case "strings":
		return []string{s, "", "%s"}
	case "ints":
		return []int{n, -1}
	case "map":
		return map[string]int{"b": n, "a": 1}
	case "rune":
		return 'é'
	case "byte":
		return byte(n)
	case "bytes":
		return []byte(s)
	case "struct":
		return pair{n, s}
	case "pointer":
		return &pair{n, s}
	case "big":
		return int64(n) << 40
	case "list":
		return []interface{}{s, n}[:1+n%2]
	case "u64":
		return ^uint64(n)
	}
	panic("unknown kind of argument")
}

func (r R) richArg() map[string]any {
	return map[string]any{"t": "x", "k": pick(r, richKinds), "v": fmt.Sprint(r.Intn(500))}
}

var richPieces = []string{"%s", "%d", "%v", "%+v", "%#v", "%T", "%q", "%x", "%X", "%5d", "%-5d|", "%05d", "%+d", "% d", "%.2f", "%8.3f", "%e", "%g", "%t", "%c", "%U",
	"%b", "%o", "%[1]s", "%[2]v", "%[1]*[2]d", "%*d", "%.*f", "%%", "%", "%!", "%y", "%-", "% x", "%#x", "%[5]d", "%[x]d", "100%", "text", "é", "\n", "\"", "%é", "%6.2s|", "%-8q|", "%w"}

func (r R) richText() string {
	var b strings.Builder
	for k := r.Intn(5); k >= 0; k-- {
		b.WriteString(pick(r, richPieces))
		b.WriteString(pick(r, []string{" ", "", ",", "x"}))
	}
	return b.String()
}

// richTexts puts all of fmt's syntax into the texts of a history.
func (g *gen) richTexts() {
	for _, l := range [][]string{g.v.trs, g.v.ids, g.v.pls} {
		for i := range l {
			if l[i] != "" && g.r.chance(0.6) {
				l[i] = g.r.richText()
			}
		}
	}
	g.v.ids = nonEmpty(g.v.ids)
}

func (g *gen) richArgs(op Op) {
	args := op["args"].([]any)
	for i := range args {
		// (the verb w prints what an asker is made of)
		if g.r.chance(0.7) || args[i].(map[string]any)["t"] == "l" {
			args[i] = g.r.richArg()
		}
	}
	tab := []any{}
	seen := map[string]bool{}
	for _, l := range [][]string{g.v.trs, g.v.ids, g.v.pls, {str(op, "i"), str(op, "p"), str(op, "s")}} {
		for _, t := range l {
			nul := strings.ReplaceAll(t, "\x00", "0")
			for _, t := range []string{t, nul, strings.ReplaceAll(nul, "\x04", "|")} { // as forMo spells them
				if !seen[t] {
					seen[t] = true
					tab = append(tab, []any{t, fmt.Sprintf(t, vars(op)...)})
				}
			}
		}
	}
	op["tab"] = tab
}

// format calls one of the exported helpers.
func format(how, s string, args []interface{}) string {
	switch how {
	case "append":
		b := append(make([]byte, 0, 100), "pre"...)
		out := string(gotext.Appendf(b, s, args...))
		if !strings.HasPrefix(out, "pre") || string(b) != "pre" {
			return "PREFIX CHANGED"
		}
		return out[3:]
	case "args":
		if len(args) > 0 {
			return gotext.FormatStringWithArgs(s, args)
		}
	}
	return gotext.FormatString(s, args...)
}

// richTemplate makes a named format, its parameters, and what fmt makes of each of its conversions.
func (r R) richTemplate() (string, []any, []any) {
	names := []string{"a", "name", "Name", "x1", "under_score", "a1", "1", "nam", "s", "d"}
	params, conv := []any{}, []any{}
	vals := map[string]any{}
	for _, p := range r.Perm(len(names))[:1+r.Intn(5)] {
		v := r.richArg()
		params = append(params, []any{names[p], v})
		vals[names[p]] = richVar(v)
	}
	var b strings.Builder
	seen := map[string]bool{}
	for k := r.Intn(7); k >= 0; k-- {
		switch r.Intn(5) {
		case 0:
			b.WriteString("%%")
		case 1:
			b.WriteString(pick(r, []string{"text", " ", "(a)s", "é", "(", ")", "s", "d", ".", "\n", "name", "{x}", "(name)"}))
		default:
			n := params[r.Intn(len(params))].([]any)[0].(string)
			if r.chance(0.1) { // no such parameter: nil
				for n = pick(r, names); ; n = pick(r, names) {
					if _, ok := vals[n]; !ok {
						break
					}
				}
			}
			c := pick(r, []string{"", "", "", "5", "12", "08", ".2", "8.3", ".0"}) + pick(r, []string{"s", "v", "T", "t", "b", "c", "d", "o", "q", "X", "x", "U", "e", "E", "f", "F", "g"})
			b.WriteString("%(" + n + ")" + c)
			if !seen[n+" "+c] {
				seen[n+" "+c] = true
				conv = append(conv, []any{n, c, fmt.Sprintf("%"+c, vals[n])})
			}
		}
	}
	if len(conv) == 0 {
		conv = append(conv, []any{"", "", ""})
	}
	return b.String(), params, conv
}
