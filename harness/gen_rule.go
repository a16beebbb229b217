package main

import (
	"fmt"
	"strings"

	"github.com/leonelquinteros/gotext/plurals"
)

// Plural rules: every one up to some size, and random ones of any depth.

var cmps = []string{"==", "!=", "<", "<=", ">", ">="}

// execRule compiles a rule and evaluates it.
func execRule(op Op) {
	ns := [][]int{}
	for _, n := range op["ns"].([][]int) {
		ns = append(ns, n)
	}
	guard(op, Op{"ok": false, "nil": false, "vals": []any{}}, func() {
		e, err := plurals.Compile(str(op, "s"))
		vals := []any{}
		if err == nil && e != nil {
			for _, n := range ns {
				vals = append(vals, e.Eval(uint32(n[0])<<16|uint32(n[1])))
			}
		}
		op["obs"] = Op{"ok": err == nil, "nil": e == nil, "vals": vals}
	})
}

func nsFor(r R, k int) [][]int {
	out := [][]int{}
	for i := uint32(0); i <= 12; i++ {
		out = append(out, limbs(i))
	}
	for _, i := range []uint32{100, 101, 111, 112, 2147483647, 2147483648, 4294967295} {
		out = append(out, limbs(i))
	}
	for i := 0; i < k; i++ {
		out = append(out, limbs(r.n()))
	}
	return out
}

// tokens of a random expression
func (r R) num() string {
	switch r.Intn(8) {
	case 0:
		return fmt.Sprint(pick(r, edges))
	case 1:
		return fmt.Sprint(r.Intn(120))
	default:
		return fmt.Sprint(r.Intn(12))
	}
}

func (r R) modulus() string {
	if r.chance(0.15) {
		return fmt.Sprint(pick(r, edges[1:]))
	}
	return pick(r, []string{"1", "2", "3", "10", "100", "1000", "7", "1000000"})
}

func (r R) cmp() []string {
	l := []string{"n"}
	if r.chance(0.5) {
		l = []string{"n", "%", r.modulus()}
	}
	v := r.num()
	if r.chance(0.25) {
		return append([]string{v, pick(r, cmps)}, l...)
	}
	return append(l, pick(r, cmps), v)
}

func par(l []string) []string { return append(append([]string{"("}, l...), ")") }

// cond makes a condition; with prec, one that needs no parentheses next to && (2) or || (1)
func (r R) cond(depth, prec int) []string {
	var l []string
	p := 3
	if depth == 0 || r.chance(0.3) {
		l = r.cmp()
	} else {
		op := pick(r, []string{"&&", "||"})
		p = map[string]int{"&&": 2, "||": 1}[op]
		l = append(append(r.cond(depth-1, p), op), r.cond(depth-1, p)...)
	}
	if p < prec || r.chance(0.2) {
		l = par(l)
	}
	if r.chance(0.05) {
		l = par(l)
	}
	return l
}

func (r R) value(depth int) []string {
	if depth == 0 || r.chance(0.2) {
		switch {
		case r.chance(0.2):
			return r.cond(1, 0)
		case r.chance(0.15):
			return par([]string{fmt.Sprint(r.Intn(9))})
		}
		return []string{fmt.Sprint(r.Intn(9))}
	}
	l := append(r.cond(r.Intn(3), 0), "?")
	l = append(append(append(l, r.value(depth-1)...), ":"), r.value(depth-1)...)
	if r.chance(0.3) {
		l = par(l)
	}
	return l
}

// spell writes tokens with random blanks.
func (r R) spell(l []string) string {
	mode := r.Intn(3)
	var b strings.Builder
	for i, t := range l {
		if mode == 1 && i > 0 || mode == 2 && r.chance(0.3) {
			b.WriteString(pick(r, []string{" ", " ", "  ", "\t"}))
		}
		b.WriteString(t)
	}
	if mode == 2 && r.chance(0.3) {
		b.WriteString(" ")
	}
	return b.String()
}

// breakTokens damages an expression.
func (r R) breakTokens(l []string) []string {
	l = append([]string{}, l...)
	i := r.Intn(len(l))
	switch r.Intn(6) {
	case 0, 1:
		return append(l[:i], l[i+1:]...)
	case 2:
		return append(l[:i], append([]string{pick(r, []string{"(", ")", "?", ":", "&&", "||", "%", "==", "n", "3", "x", "+", "!", "=", "&", "|", "nn", ";"})}, l[i:]...)...)
	case 3:
		l[i] = pick(r, []string{"(", ")", "?", ":", "&&", "||", "%", "<", "n", "0", "4294967296", "x", "-", "99999999999999999999", "n0"})
		return l
	case 4:
		return l[:i]
	default:
		j := r.Intn(len(l))
		l[i], l[j] = l[j], l[i]
		return l
	}
}

func (r R) randomRule(depth int) string {
	return r.spell(r.value(depth))
}

// deep makes a value that is nested far more than random ones are.
func (r R) deep() []string {
	k := 5 + r.Intn(40)
	switch r.Intn(4) {
	case 0: // pairs of parentheses around the whole, or around a condition or a value
		l := r.value(r.Intn(2))
		for ; k > 0; k-- {
			l = par(l)
		}
		if r.chance(0.5) {
			c := r.cmp()
			for k = r.Intn(40); k >= 0; k-- {
				c = par(c)
			}
			l = append(append(append(append(c, "?"), l...), ":"), r.value(1)...)
		}
		return l
	case 1: // conditions in conditions
		l := r.cmp()
		for ; k > 0; k-- {
			o := pick(r, []string{"&&", "||"})
			if r.chance(0.5) {
				l = append(append(par(l), o), r.cmp()...)
			} else {
				l = append(append(r.cmp(), o), par(l)...)
			}
		}
		if r.chance(0.5) {
			l = append(append(append(append(l, "?"), r.value(1)...), ":"), r.value(1)...)
		}
		return l
	case 2: // ternaries in either branch
		l := r.value(0)
		for ; k > 0; k-- {
			if r.chance(0.3) {
				l = par(l)
			}
			if r.chance(0.5) {
				l = append(append(append(append(r.cmp(), "?"), l...), ":"), fmt.Sprint(r.Intn(9)))
			} else {
				l = append(append(append(r.cmp(), "?"), fmt.Sprint(r.Intn(9)), ":"), l...)
			}
		}
		return l
	default: // long chains without parentheses
		l := r.cmp()
		for ; k > 0; k-- {
			l = append(append(l, pick(r, []string{"&&", "||"})), r.cmp()...)
		}
		return l
	}
}

func ruleRandom(r R, id string) trace {
	t := trace{ID: id}
	for k := 0; k < 12; k++ {
		l := r.value(r.Intn(5))
		if r.chance(0.12) {
			l = r.deep()
		}
		if r.chance(0.35) {
			for c := 1 + r.Intn(2); c > 0; c-- {
				if len(l) > 0 {
					l = r.breakTokens(l)
				}
			}
		}
		s := r.spell(l)
		if len(s) > 0 && r.chance(0.06) {
			i := r.Intn(len(s))
			s = s[:i] + pick(r, []string{" ", "\t", "+", "-"}) + s[i:]
		}
		op := Op{"op": "rule", "s": s, "ns": nsFor(r, 6)}
		execRule(op)
		t.Ops = append(t.Ops, op)
	}
	return t
}

// allRules enumerates the small rules: comparisons, their combinations, and nested ternaries.
func allRules(shapes int) []string {
	out := []string{"0", "1", "(2)", "((3))", "n", "(n)"}
	out = out[:4]
	atoms := []string{}
	for _, c := range cmps {
		for k := 0; k < 3; k++ {
			atoms = append(atoms, fmt.Sprint("n", c, k), fmt.Sprint(k, c, "n"))
			for _, m := range []int{1, 2, 10} {
				atoms = append(atoms, fmt.Sprint("n%", m, c, k), fmt.Sprint(k, c, "n%", m))
			}
		}
	}
	for _, a := range atoms {
		out = append(out, a, "("+a+")", a+"?3:4", "("+a+")?(3):(4)", "("+a+"?3:4)")
	}
	few := []string{"n==1", "n%3>=1", "2<n", "n!=4"}
	for _, a := range few {
		for _, b := range few {
			for _, o := range []string{"&&", "||"} {
				for _, f := range []string{"%s%s%s", "(%s)%s(%s)", "(%s%s%s)", "((%s)%s%s)", "(%s)%s%s", "%s%s(%s)"} {
					s := fmt.Sprintf(f, a, o, b)
					out = append(out, s, s+"?1:2")
				}
				for _, c := range few[:3] {
					for _, o2 := range []string{"&&", "||"} {
						for _, f := range []string{"%s%s%s%s%s", "(%s%s%s)%s%s", "%s%s(%s%s%s)", "(%s)%s(%s)%s(%s)", "((%s%s%s)%s%s)", "(%s%s(%s%s%s))", "(%s%s%s)%s(%s)"} {
							out = append(out, fmt.Sprintf(f, a, o, b, o2, c)+"?1:0")
						}
					}
				}
			}
		}
	}
	// ternaries: all shapes, with constants numbered and conditions in turn
	conds := []string{"n==1", "n%2==0", "(n>2&&n<7)", "n==0||n>=10", "3!=n"}
	var fill func(s string) string
	fill = func(s string) string {
		k, c := 0, 0
		var b strings.Builder
		for _, x := range s {
			switch x {
			case 'k':
				b.WriteString(fmt.Sprint(k))
				k++
			case 'C':
				b.WriteString(conds[c%len(conds)])
				c++
			default:
				b.WriteRune(x)
			}
		}
		return b.String()
	}
	level := []string{"k", "C"}
	for d := 0; d < 2; d++ {
		next := append([]string{}, level...)
		for _, a := range level {
			if a != "k" {
				next = append(next, "("+a+")")
			}
			for _, b := range level {
				next = append(next, "C?"+a+":"+b)
			}
		}
		level = next
	}
	if shapes > 2 {
		// one more level on the left, on the right and in parentheses
		for _, a := range level {
			out = append(out, fill("C?"+a+":k"), fill("C?k:"+a), fill("C?("+a+"):k"), fill("C?k:("+a+")"), fill("(C)?"+a+":("+a+")"))
		}
	}
	for _, a := range level {
		out = append(out, fill(a))
	}
	return out
}

func init() {
	plain("C04", ruleRandom)
	drivers["C04x"] = func(r R, count int, s *sink) {
		shapes := 2
		if count > 0 {
			shapes = 3
		}
		rs := allRules(shapes)
		var t trace
		for i, x := range rs {
			op := Op{"op": "rule", "s": x, "ns": nsFor(r, 0)}
			execRule(op)
			t.Ops = append(t.Ops, op)
			if len(t.Ops) == 40 || i == len(rs)-1 {
				t.ID = fmt.Sprint("C04x-", i)
				s.put(t)
				t = trace{}
			}
		}
	}
}
