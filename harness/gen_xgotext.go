package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
	pkgtree "github.com/leonelquinteros/gotext/cli/xgotext/parser/pkg-tree"
)

// Random Go programs that call gotext, and things that look like it, in every way the language has,
// together with their description for spec/Extract.tla.

const gotextPath = "github.com/leonelquinteros/gotext"

type xtype struct {
	k, pkg, name string
	of           *xtype
	decl         *xdecl
}

func (t *xtype) js() any {
	switch t.k {
	case "named":
		return map[string]any{"k": "named", "pkg": t.pkg, "name": t.name}
	case "func":
		return map[string]any{"k": "func", "ret": t.of.js()}
	case "basic":
		return map[string]any{"k": "basic", "name": t.name}
	}
	return map[string]any{"k": t.k, "of": t.of.js()}
}

// plain drops the aliases at the head of a type.
func (t *xtype) plain() *xtype {
	for t.k == "named" && t.decl != nil && t.decl.k == "alias" {
		t = t.decl.is
	}
	return t
}

func goT(n string) *xtype      { return &xtype{k: "named", pkg: gotextPath, name: n} }
func ptrT(t *xtype) *xtype     { return &xtype{k: "ptr", of: t} }
func fnT(t *xtype) *xtype      { return &xtype{k: "func", of: t} }
func basicT(n string) *xtype   { return &xtype{k: "basic", name: n} }
func (t *xtype) isGo() bool    { return t.k == "named" && t.pkg == gotextPath }
func (t *xtype) isIface() bool { return t.isGo() && strings.HasSuffix(t.name, "Translator") }

type xfield struct {
	name string
	t    *xtype
	emb  bool
}

type xdecl struct {
	pkg     *xpkg
	name, k string // struct, fake (a struct with gotext's methods) or alias
	fields  []xfield
	methods []xfield
	is      *xtype
}

func (d *xdecl) t() *xtype { return &xtype{k: "named", pkg: d.pkg.path, name: d.name, decl: d} }

type xpkg struct {
	path, name string
	dir        []string
	files      []*xfile
	uses       []*xpkg // packages it may import
	gotext     bool
	homonyms   bool
	decls      []*xdecl
	names      []xfield // variables and functions
	leaf       bool
}

type xlocal struct {
	name string
	t    *xtype
}

type xfile struct {
	pkg     *xpkg
	name    string
	imports [][2]string // local name, path
	src     strings.Builder
	funcs   [][]xlocal
	calls   []map[string]any
}

type xgen struct {
	module string
	r      R
	pkgs   []*xpkg
	vocab  struct{ ids, pls, ctxs, doms []string }
	fresh  int
	// where the generator is
	f      *xfile
	fn     int
	locals []xlocal
	nl     int // lines may be broken
}

// ---- names in scope ---------------------------------------------------------

func (g *xgen) shadowed(name string) bool {
	for _, l := range g.locals {
		if l.name == name {
			return true
		}
	}
	return false
}

func (g *xgen) importName(path string) string {
	for _, k := range g.r.Perm(len(g.f.imports)) {
		i := g.f.imports[k]
		if i[1] == path && i[0] != "_" && !g.shadowed(i[0]) {
			return i[0]
		}
	}
	return ""
}

// render writes a type; "" if it can't be named here.
func (g *xgen) render(t *xtype) string {
	sub := func(pre string) string {
		if s := g.render(t.of); s != "" {
			return pre + s
		}
		return ""
	}
	switch t.k {
	case "basic":
		return t.name
	case "ptr":
		return sub("*")
	case "slice":
		return sub("[]")
	case "map":
		return sub("map[string]")
	case "chan":
		if t.of.k == "func" || t.of.k == "chan" {
			return ""
		}
		return sub("chan ")
	case "func":
		return sub("func() ")
	}
	if t.pkg == g.f.pkg.path {
		if g.shadowed(t.name) {
			return ""
		}
		return t.name
	}
	if n := g.importName(t.pkg); n != "" {
		return n + "." + t.name
	}
	return ""
}

// leafType and anyType make types that can be named in the current file.
func (g *xgen) leafType() *xtype {
	r := g.r
	for try := 0; try < 20; try++ {
		var t *xtype
		switch k := r.Intn(10); {
		case k < 5:
			n := pick(r, []string{"Po", "Mo", "Locale", "Locale", "Domain", "Translator", "Translator", "AppendTranslator"})
			t = goT(n)
			if !t.isIface() && r.chance(0.8) {
				t = ptrT(t)
			}
		case k < 9:
			ds := append([]*xdecl{}, g.f.pkg.decls...)
			for _, p := range g.f.pkg.uses {
				ds = append(ds, p.decls...)
			}
			if len(ds) == 0 {
				continue
			}
			t = pick(r, ds).t()
			if r.chance(0.4) && t.decl.k != "alias" {
				t = ptrT(t)
			}
		default:
			t = basicT("interface{}")
		}
		if g.render(t) != "" {
			return t
		}
	}
	return basicT("interface{}")
}

func (g *xgen) anyType() *xtype {
	t := g.leafType()
	for g.r.chance(0.3) {
		switch g.r.Intn(5) {
		case 0:
			t = &xtype{k: "slice", of: t}
		case 1:
			t = &xtype{k: "map", of: t}
		case 2:
			if t.k != "func" && t.k != "chan" {
				t = &xtype{k: "chan", of: t}
			}
		case 3:
			t = fnT(t)
		case 4:
			if t.k != "ptr" {
				t = ptrT(t)
			}
		}
	}
	return t
}

// ---- expressions --------------------------------------------------------------

type xexpr struct {
	js   map[string]any
	src  string
	t    *xtype // nil for the package gotext itself, or another package
	pkg  string
	addr bool
}

func js(kind string, kv ...any) map[string]any {
	m := map[string]any{"e": kind}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return m
}

var goNames = map[string]*xtype{
	"NewPo()": ptrT(goT("Po")), "NewMo()": ptrT(goT("Mo")), "NewDomain()": ptrT(goT("Domain")),
	`NewLocale("p", "en")`: ptrT(goT("Locale")), "GetStorage()": ptrT(goT("Locale")),
	"GetLocales()": {k: "slice", of: ptrT(goT("Locale"))},
}

// base makes an expression from a name in scope.
func (g *xgen) base() *xexpr {
	r := g.r
	switch k := r.Intn(12); {
	case k < 5 && len(g.locals) > 0:
		i := r.Intn(len(g.locals))
		if r.chance(0.6) {
			i = len(g.locals) - 1
		}
		name := g.locals[i].name
		for j := range g.locals { // the last of that name
			if g.locals[j].name == name {
				i = j
			}
		}
		return &xexpr{js: js("id", "name", name), src: name, t: g.locals[i].t, addr: true}
	case k < 8 && len(g.f.pkg.names) > 0:
		n := pick(r, g.f.pkg.names)
		if !g.shadowed(n.name) {
			return &xexpr{js: js("id", "name", n.name), src: n.name, t: n.t, addr: !n.emb}
		}
	case k < 10 && len(g.f.pkg.uses) > 0:
		p := pick(r, g.f.pkg.uses)
		in := g.importName(p.path)
		if in != "" && len(p.names) > 0 {
			n := pick(r, p.names)
			return &xexpr{js: js("sel", "x", js("id", "name", in), "f", n.name), src: in + "." + n.name, t: n.t, addr: !n.emb}
		}
	default:
		in := g.importName(gotextPath)
		if in == "" {
			return nil
		}
		if r.chance(0.4) {
			n := pick(r, []string{"Po", "Mo", "Domain", "Locale"})
			return &xexpr{js: js("typed", "t", ptrT(goT(n)).js()), src: "(&" + in + "." + n + "{})", t: ptrT(goT(n))}
		}
		n := pick(r, sortedKeys(goNames))
		f := n[:strings.Index(n, "(")]
		return &xexpr{js: js("call", "x", js("sel", "x", js("id", "name", in), "f", f)), src: in + "." + n, t: goNames[n]}
	}
	return nil
}

func (e *xexpr) step(kind, src string, t *xtype, addr bool, kv ...any) *xexpr {
	return &xexpr{js: js(kind, append([]any{"x", e.js}, kv...)...), src: src, t: t, addr: addr}
}

// next goes one step into a value; nil if there is none.
func (g *xgen) next(e *xexpr) *xexpr {
	r := g.r
	if r.chance(0.08) {
		return e.step("paren", "("+e.src+")", e.t, e.addr)
	}
	if r.chance(0.04) {
		return e.step("paren", "gen("+e.src+")", e.t, false)
	}
	t := e.t.plain()
	brk := ""
	if r.chance(0.08) {
		brk = "\n\t\t"
	}
	if t.k == "ptr" {
		u := t.of.plain()
		if u.k != "named" || u.isIface() || r.chance(0.1) {
			return e.step("deref", "(*"+e.src+")", t.of, true)
		}
		t = u
		e = &xexpr{js: e.js, src: e.src, t: e.t, addr: true}
	}
	sel := func(f string, ft *xtype, addr bool) *xexpr {
		return e.step("sel", e.src+"."+brk+f, ft, addr, "f", f)
	}
	switch t.k {
	case "slice":
		return e.step("index", e.src+"[0]", t.of, true)
	case "map":
		return e.step("index", e.src+`["k"]`, t.of, false)
	case "chan":
		return e.step("recv", "(<-"+e.src+")", t.of, false)
	case "func":
		return e.step("call", e.src+"()", t.of, false)
	case "basic":
		to := g.leafType()
		if s := g.render(to); s != "" && t.name == "interface{}" {
			return &xexpr{js: js("typed", "t", to.js()), src: e.src + ".(" + s + ")", t: to}
		}
		return nil
	}
	if t.isGo() {
		switch {
		case t.name == "Locale" && r.chance(0.5):
			return sel("Domains", &xtype{k: "map", of: goT("Translator")}, e.addr)
		case t.name == "Po" || t.name == "Mo" || t.isIface():
			if !e.addr && !t.isIface() {
				return nil
			}
			if t.isIface() || r.chance(0.6) {
				d := sel("GetDomain", fnT(ptrT(goT("Domain"))), false)
				return d.step("call", d.src+"()", ptrT(goT("Domain")), false)
			}
			return sel("Headers", goT("HeaderMap"), false)
		case t.name == "Domain":
			return sel("Headers", goT("HeaderMap"), false)
		}
		return nil
	}
	var fs, ms []xfield
	var collect func(d *xdecl)
	collect = func(d *xdecl) {
		ms = append(ms, d.methods...)
		for _, f := range d.fields {
			fs = append(fs, f)
			if f.emb {
				u := f.t.plain()
				if u.k == "ptr" {
					u = u.of.plain()
				}
				if u.decl != nil && u.decl.k == "struct" {
					collect(u.decl)
				}
			}
		}
	}
	collect(t.decl)
	if len(fs)+len(ms) == 0 {
		return nil
	}
	k := r.Intn(len(fs) + len(ms))
	if k < len(fs) {
		return sel(fs[k].name, fs[k].t, e.addr)
	}
	m := ms[k-len(fs)]
	s := sel(m.name, fnT(m.t), false)
	return s.step("call", s.src+"()", m.t, false)
}

// receiver makes an expression that has Get methods: the package, a catalogue or a look-alike.
func (g *xgen) receiver() *xexpr {
	r := g.r
	for try := 0; try < 60; try++ {
		if r.chance(0.15) {
			if in := g.importName(gotextPath); in != "" {
				return &xexpr{js: js("id", "name", in), src: in, pkg: gotextPath}
			}
		}
		if r.chance(0.1) && len(g.f.pkg.uses) > 0 {
			if p := pick(r, g.f.pkg.uses); p.homonyms {
				if in := g.importName(p.path); in != "" {
					return &xexpr{js: js("id", "name", in), src: in, pkg: p.path}
				}
			}
		}
		e := g.base()
		for k := 0; e != nil && k < 8; k++ {
			if g.callable(e) && !(len(e.src) < 60 && r.chance(0.25)) {
				return e
			}
			e = g.next(e)
		}
	}
	return nil
}

func (g *xgen) callable(e *xexpr) bool {
	t := e.t.plain()
	if t.k == "ptr" {
		u := t.of.plain()
		return u.k == "named" && !u.isIface() && (u.isGo() || u.decl.k == "fake") && u.name != "HeaderMap"
	}
	if t.k != "named" {
		return false
	}
	if t.isGo() {
		return t.isIface() || t.name == "HeaderMap" || e.addr
	}
	return t.decl.k == "fake"
}

// ---- calls ----------------------------------------------------------------------

var xsig = map[string]string{"Get": "i", "GetN": "ipn", "GetD": "di", "GetND": "dipn", "GetC": "ic", "GetNC": "ipnc", "GetDC": "dic", "GetNDC": "dipnc"}

// literal writes a string in one of Go's syntaxes.
func (g *xgen) literal(s string) string {
	r := g.r
	if !strings.ContainsAny(s, "`\r\ufeff\x00") && r.chance(0.3) {
		return "`" + s + "`"
	}
	switch r.Intn(4) {
	case 0:
		return strconv.QuoteToASCII(s)
	case 1:
		var b strings.Builder
		b.WriteByte('"')
		for i := 0; i < len(s); i++ {
			switch {
			case r.chance(0.2):
				fmt.Fprintf(&b, `\x%02x`, s[i])
			case r.chance(0.1):
				fmt.Fprintf(&b, `\%03o`, s[i])
			case s[i] == '"' || s[i] == '\\':
				b.WriteByte('\\')
				b.WriteByte(s[i])
			case s[i] < ' ' || s[i] >= 0x7f:
				fmt.Fprintf(&b, `\x%02x`, s[i])
			default:
				b.WriteByte(s[i])
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return strconv.Quote(s)
}

func (g *xgen) text(kind byte) string {
	switch kind {
	case 'p':
		return pick(g.r, g.vocab.pls)
	case 'c':
		return pick(g.r, g.vocab.ctxs)
	case 'd':
		return pick(g.r, g.vocab.doms)
	}
	return pick(g.r, g.vocab.ids)
}

// call makes one call expression, of type string.
func (g *xgen) call(depth int) string {
	r := g.r
	rec := g.receiver()
	if rec == nil {
		if g.f.pkg.homonyms && !g.shadowed("Get") {
			rec = &xexpr{js: js("none"), pkg: "-"}
		} else {
			return `use("nothing")`
		}
	} else if g.f.pkg.homonyms && r.chance(0.05) && !g.shadowed("Get") {
		rec = &xexpr{js: js("none"), pkg: "-"}
	}
	var ms []string
	strict := true
	switch {
	case rec.t == nil && rec.pkg == gotextPath:
		ms = sortedKeys(xsig)
	case rec.t == nil && rec.pkg == "-":
		ms, strict = []string{"Get", "GetN", "GetC"}, false
	case rec.t == nil:
		ms, strict = []string{"Get", "GetN", "GetC"}, false
	default:
		u := rec.t.plain()
		if u.k == "ptr" {
			u = u.of.plain()
		}
		switch {
		case u.name == "HeaderMap" && u.isGo():
			ms = []string{"Get"}
		case u.isGo() && u.name == "Locale":
			ms = sortedKeys(xsig)
		case u.isGo():
			ms = []string{"Get", "GetN", "GetC", "GetNC"}
		default:
			ms, strict = sortedKeys(xsig), false
		}
		if u.name == "HeaderMap" && u.isGo() {
			s := g.text('i')
			return g.finish(rec, "Get", []string{g.literal(s)}, []any{map[string]any{"s": s}})
		}
	}
	m := pick(r, ms)
	sig := xsig[m]
	if !strict && r.chance(0.2) {
		sig = pick(r, []string{"", "i", "ip", "dipncc"})
	}
	var src []string
	var args []any
	other := func(s string) {
		src = append(src, s)
		args = append(args, map[string]any{"o": 1})
	}
	for i := range sig {
		if sig[i] == 'n' {
			other(pick(r, []string{"1", "2", "num", "len(\"abc\")", "0x10", "num + 1"}))
			continue
		}
		if r.chance(0.07) {
			if depth < 2 && r.chance(0.5) {
				other(g.call(depth + 1))
			} else {
				other(pick(r, []string{"str", "konst", `"a" + "b"`, `use("f")`, "string(rune(65))", "strs[0]", `"x" + str`, `("p")`, `func() string { return "q" }()`}))
			}
			continue
		}
		s := g.text(sig[i])
		if sig[i] == 'd' && r.chance(0.03) {
			s = ""
		}
		if sig[i] == 'i' && r.chance(0.02) {
			s = ""
		}
		if sig[i] == 'i' && depth > 0 { // calls on one line have different messages
			g.fresh++
			s += fmt.Sprint(" in ", g.fresh)
		}
		src = append(src, g.literal(s))
		args = append(args, map[string]any{"s": s})
	}
	for r.chance(0.2) {
		switch {
		case depth < 2 && r.chance(0.4):
			other(g.call(depth + 1))
		case r.chance(0.5):
			s := g.text('i')
			src = append(src, g.literal(s))
			args = append(args, map[string]any{"s": s})
		default:
			other(pick(r, []string{"1", "num", "nil", "3.5", "'r'", "[]int{1}", "struct{}{}"}))
		}
	}
	return g.finish(rec, m, src, args)
}

// finish writes a call with a mark where its line is counted.
func (g *xgen) finish(rec *xexpr, m string, src []string, args []any) string {
	r := g.r
	dot := "."
	if rec.js["e"] == "none" {
		dot = ""
	} else if r.chance(0.08) {
		dot = ".\n\t\t"
	}
	id := len(g.f.calls)
	if args == nil {
		args = []any{}
	}
	g.f.calls = append(g.f.calls, map[string]any{"fn": g.fn, "vis": len(g.locals), "x": rec.js, "m": m, "args": args, "line": 0})
	sep, end, open := ", ", "", ""
	if len(src) > 0 && r.chance(0.1) {
		sep = ",\n\t\t"
		if r.chance(0.5) {
			open, end = "\n\t\t", ",\n\t"
		}
	}
	return fmt.Sprintf("%s%s%s\x00%d\x00(%s%s%s)", rec.src, dot, m, id, open, strings.Join(src, sep), end)
}

// ---- statements, functions, files ----------------------------------------------------

var xwrap = []string{
	"_ = %s", "%s", "use(%s)", "if %s == \"\" {\n\t}", "switch %s {\n\tcase \"a\":\n\t}", "for range %s {\n\t}", "defer use(%s)", "go use(%s)",
	"_ = []string{%s}", "_ = map[string]string{\"k\": %s}", "_ = struct{ s string }{%s}", "func() { _ = %s }()", "_ = func() string { return %s }",
	"_ = len(%s)", "_ = %s + \"x\"", "_ = use(use(%s))", "var _ string = %s", "_ = [...]string{2: %s}", "_ = gen[string](%s)",
	"_ = gen(%s)", "select {\n\tdefault:\n\t\t_ = %s\n\t}", "_ = &struct{ f func() string }{func() string { return %s }}", "use(\n\t\t%s,\n\t)",
	"for i := 0; i < len(%s); i++ {\n\t}", "_ = strs[len(%s):]", "if true {\n\t} else if %s == \"\" {\n\t}", "_ = map[string]int{%s: 1}",
	"func(s string) { _ = s }(%s)", "_ = interface{}(%s)", "_ = any(%s).(string)", "_ = []byte(%s)", "for _, c := range %s {\n\t\t_ = c\n\t}", "{\n\t\tuse(%s)\n\t}",
	"go func() { use(%s) }()", "_, _ = %s, 1",
	"if s := %s; s == \"\" {\n\t}", "switch {\n\tcase %s == \"\":\n\t}", "select {\n\tcase make(chan string) <- %s:\n\tdefault:\n\t}",
	"for s := %s; s == \"x\"; s = \"\" {\n\t}", "_ = !(%s == \"\")", "_ = map[string]map[string]string{\"a\": {%s: \"b\"}}", "_ = []struct{ a, b string }{{b: %s}}",
	"_ = func() (s string) {\n\t\tdefer func() { s = %s }()\n\t\treturn\n\t}", "switch s := any(%s).(type) {\n\tcase string:\n\t\t_ = s\n\t}", "var (\n\t\t_ = 1\n\t\t_ = %s\n\t)",
	"strs[0] = %s", "strs[0] += %s", "_ = append(strs, %s)", "_ = append(strs, \"a\", \"b\", %s)", "(func(s ...string) {})(strs[0], %s)", "_ = string([]byte(%s)[1:])",
	"_ = *&struct{ s string }{s: %s}", "type _ struct {\n\t\t_ [len(\"x\")]int\n\t}\n\tuse(%s)", "use(%s); use(\"x\")", "use(\"x\"); use(%s)",
}

// the same outside functions
var xouter = []string{
	"var _ = %s", "var _ string = %s", "var (\n\t_ = 1\n\t_ = %s\n)", "var _, _ = %s, 1", "var _, _ = 1, %s", "var _ = []string{%s}", "var _ = map[string]string{\n\t\"k\": %s,\n}",
	"var _ = func() string { return %s }", "var _ = func() string { return %s }()", "var _ = struct{ f func() string }{f: func() string { return %s }}",
	"var _ = map[string]func() string{\"k\": func() string { return %s }}", "var (\n\t_ string = %s\n)", "var _ = append(strs, %s)", "var _ = any(%s)", "func init() {\n\tuse(%s)\n}",
	"func _() string {\n\treturn %s\n}", "func _() (string, error) {\n\treturn %s, nil\n}", "func _[T any](T) string {\n\treturn %s\n}", "func _() func() string {\n\treturn func() string {\n\t\treturn %s\n\t}\n}",
	"var _ interface{} = []interface{}{1, %s}", "var _ = [2]string{1: %s}", "var _ = len(%s)", "var _ = &[]string{%s}[0]",
}

var xnames = []string{"v", "x", "t", "l", "gotext", "gt", "i18n", "tr", "V0", "V1", "F0", "Po", "po", "alpha", "S0", "Get"}

func (g *xgen) statement(w *strings.Builder) {
	tpl := pick(g.r, xwrap)
	c := g.call(0)
	if tpl == "%s" && (strings.HasPrefix(c, "(") || strings.HasPrefix(c, "*")) {
		tpl = "_ = %s" // could join the line before
	}
	fmt.Fprintf(w, "\t"+tpl+"\n", c)
}

// body writes statements and declarations; blocks end where the body does.
func (g *xgen) body(w *strings.Builder, n int, taken map[string]bool) {
	r := g.r
	var closers []string
	open := func(c string) {
		closers = append(closers, c)
		taken = map[string]bool{}
	}
	for i := 0; i < n; i++ {
		if r.chance(0.55) {
			g.statement(w)
			continue
		}
		name := pick(r, xnames)
		t := g.anyType()
		s := g.render(t)
		if s == "" {
			continue
		}
		switch k := r.Intn(8); k {
		case 0, 1:
			if taken[name] {
				fmt.Fprintf(w, "\t{\n")
				open("}")
			}
			fmt.Fprintf(w, "\tvar %s %s\n", name, s)
		case 2:
			fmt.Fprintf(w, "\tfor _, %s := range ([]%s)(nil) {\n", name, s)
			open("}")
		case 3:
			fmt.Fprintf(w, "\tswitch %s := interface{}(nil).(type) {\n\tcase %s:\n", name, s)
			open("}")
		case 4:
			fmt.Fprintf(w, "\t_ = func(%s %s) {\n", name, s)
			open("}")
		case 5:
			fmt.Fprintf(w, "\tif %s, ok := interface{}(nil).(%s); ok {\n", name, s)
			open("}")
		default:
			e := g.base()
			for e != nil && r.chance(0.4) {
				e = g.next(e)
			}
			if e == nil || e.t == nil {
				continue
			}
			if taken[name] {
				fmt.Fprintf(w, "\t{\n")
				open("}")
			}
			fmt.Fprintf(w, "\t%s := %s\n", name, e.src)
			t = e.t
		}
		taken[name] = true
		fmt.Fprintf(w, "\t_ = %s\n", name)
		g.locals = append(g.locals, xlocal{name, t})
	}
	for i := len(closers) - 1; i >= 0; i-- {
		fmt.Fprintf(w, "\t%s\n", closers[i])
	}
}

func (g *xgen) function(w *strings.Builder) {
	r := g.r
	g.f.funcs = append(g.f.funcs, nil)
	g.fn, g.locals = len(g.f.funcs), nil
	var ps []string
	var ls []xlocal
	seen := map[string]bool{}
	for r.chance(0.5) {
		n, t := pick(r, xnames), g.anyType()
		if s := g.render(t); s != "" && !seen[n] {
			ps = append(ps, n+" "+s)
			ls = append(ls, xlocal{n, t})
			seen[n] = true
		}
	}
	g.fresh++
	var own []*xdecl
	for _, d := range g.f.pkg.decls {
		if d.k == "struct" || d.k == "fake" {
			own = append(own, d)
		}
	}
	closer := "}"
	switch k := r.Intn(6); {
	case k == 0 && len(own) > 0:
		d := pick(r, own)
		n := pick(r, xnames)
		star := pick(r, []string{"", "*"})
		t := d.t()
		if star != "" {
			t = ptrT(t)
		}
		if seen[n] {
			n = "recv"
		}
		fmt.Fprintf(w, "func (%s %s%s) m%d(%s) {\n", n, star, d.name, g.fresh, strings.Join(ps, ", "))
		g.locals = append(g.locals, xlocal{n, t})
		seen[n] = true
	case k == 1:
		fmt.Fprintf(w, "var _ = func(%s) {\n", strings.Join(ps, ", "))
	case k == 2 && len(ps) == 0:
		fmt.Fprintf(w, "func init() {\n")
	default:
		fmt.Fprintf(w, "func fun%d(%s) {\n", g.fresh, strings.Join(ps, ", "))
	}
	g.locals = append(g.locals, ls...)
	if seen["use"] {
		panic("use")
	}
	// several stretches of declarations, each with what it declares gone afterwards
	outer := len(g.locals)
	g.body(w, 2+r.Intn(8), seen)
	fmt.Fprintf(w, "%s\n\n", closer)
	_ = outer
	g.f.funcs[g.fn-1] = g.locals
	g.locals = nil
}

func (g *xgen) declare(p *xpkg) {
	r := g.r
	g.f = p.files[0]
	g.fn, g.locals = 1, nil
	w := &g.f.src
	fmt.Fprintf(w, "var (\n\tstr = \"s\"\n\tnum = 3\n\tstrs = []string{\"q\"}\n)\n\nconst konst = \"k\"\n\n")
	fmt.Fprintf(w, "func use(...interface{}) string { return \"\" }\n\nfunc gen[T any](t T) T { return t }\n\n")
	if p.homonyms {
		for _, m := range []string{"Get", "GetN", "GetC"} {
			fmt.Fprintf(w, "func %s(...interface{}) string { return \"\" }\n\n", m)
		}
	}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		d := &xdecl{pkg: p, name: fmt.Sprintf("S%d", i), k: "struct"}
		if r.chance(0.3) {
			d.k = "fake"
			d.name = pick(r, []string{"Fake", "Po", "Locale"}) + fmt.Sprint(i)
		} else if r.chance(0.3) {
			d.k = "alias"
			d.is = g.anyType()
			fmt.Fprintf(w, "type %s = %s\n\n", d.name, g.render(d.is))
			p.decls = append(p.decls, d)
			continue
		}
		fmt.Fprintf(w, "type %s struct {\n", d.name)
		for j, m := 0, 1+r.Intn(3); j < m; j++ {
			if r.chance(0.2) && d.k == "struct" {
				t := g.leafType()
				base := t
				if t.k == "ptr" {
					base = t.of
				}
				s := g.render(t)
				dup := base.k != "named" || base.decl != nil && base.decl.k == "alias"
				for _, f := range d.fields {
					dup = dup || f.name == base.name
				}
				if dup {
					continue
				}
				d.fields = append(d.fields, xfield{base.name, t, true})
				fmt.Fprintf(w, "\t%s\n", s)
				break // one is enough: two could promote the same name
			}
			t := g.anyType()
			f := xfield{fmt.Sprintf("A%s%s%d", strings.ToUpper(p.name[:1]), d.name, j), t, false}
			d.fields = append(d.fields, f)
			fmt.Fprintf(w, "\t%s %s\n", f.name, g.render(t))
		}
		fmt.Fprintf(w, "}\n\n")
		p.decls = append(p.decls, d)
		if d.k == "fake" {
			for _, m := range sortedKeys(xsig) {
				fmt.Fprintf(w, "func (%s) %s(...interface{}) string { return \"\" }\n\n", d.name, m)
			}
		}
		for j := 0; j < 2 && r.chance(0.4); j++ {
			t := g.anyType()
			m := xfield{fmt.Sprintf("M%s%s%d", strings.ToUpper(p.name[:1]), d.name, j), t, false}
			d.methods = append(d.methods, m)
			fmt.Fprintf(w, "func (%s) %s() (r %s) { return }\n\n", d.name, m.name, g.render(t))
		}
	}
	for i, n := 0, 2+r.Intn(3); i < n; i++ {
		t := g.anyType()
		p.names = append(p.names, xfield{fmt.Sprintf("V%d", i), t, false})
		fmt.Fprintf(w, "var V%d %s\n\n", i, g.render(t))
	}
	for i, n := 0, 1+r.Intn(2); i < n; i++ {
		t := g.anyType()
		p.names = append(p.names, xfield{fmt.Sprintf("F%d", i), fnT(t), true})
		fmt.Fprintf(w, "func F%d() (r %s) { return }\n\n", i, g.render(t))
	}
}

// header writes the imports of a file; every import is used.
func (f *xfile) text(r R) string {
	var b strings.Builder
	if r.chance(0.2) {
		b.WriteString("// Code with a comment\n\n/* and\nanother */\n")
	}
	fmt.Fprintf(&b, "package %s\n\n", f.pkg.name)
	for _, i := range f.imports {
		name := i[0]
		def := i[1][strings.LastIndex(i[1], "/")+1:]
		for _, p := range f.pkg.uses {
			if p.path == i[1] {
				def = p.name
			}
		}
		if name == def && r.chance(0.7) {
			fmt.Fprintf(&b, "import %q\n", i[1])
		} else {
			fmt.Fprintf(&b, "import %s %q\n", name, i[1])
		}
	}
	b.WriteString("\n")
	for _, i := range f.imports {
		switch {
		case i[1] == gotextPath:
			fmt.Fprintf(&b, "var _ %s.Translator\n", i[0])
		case i[0] == "_":
		default:
			known := map[string]string{"errors": "New", "sort": "Ints", "strings": "ToLower", "unicode": "IsUpper"}[i[1]]
			if known == "" {
				known = "V0" // a package of the program
			}
			fmt.Fprintf(&b, "var _ = %s.%s\n", i[0], known)
		}
	}
	if f.pkg.name == "main" && f == f.pkg.files[0] {
		b.WriteString("func main() {}\n")
	}
	b.WriteString("\n")
	b.WriteString(f.src.String())
	parts := strings.Split(b.String(), "\x00")
	var out strings.Builder
	line := 1
	for i, p := range parts {
		if i%2 == 1 {
			k, _ := strconv.Atoi(p)
			f.calls[k]["line"] = line
			continue
		}
		line += strings.Count(p, "\n")
		out.WriteString(p)
	}
	return out.String()
}

func (f *xfile) js() any {
	ims, fns := []any{}, []any{}
	for _, i := range f.imports {
		ims = append(ims, []any{i[0], i[1]})
	}
	for _, fn := range f.funcs {
		ls := []any{}
		for _, l := range fn {
			ls = append(ls, []any{l.name, l.t.js()})
		}
		fns = append(fns, map[string]any{"locals": ls})
	}
	calls := []any{}
	for _, c := range f.calls {
		calls = append(calls, c)
	}
	dir := []any{}
	for _, d := range f.pkg.dir {
		dir = append(dir, d)
	}
	for i := range fns {
		fns[i] = fns[i].(map[string]any)["locals"]
	}
	return map[string]any{"pkg": f.pkg.path, "dir": dir, "file": f.name, "imports": ims, "funcs": fns, "calls": calls}
}

type xconf struct {
	pkgs, stmts int
	trees       bool // directories matter more than calls
}

func (g *xgen) program(c xconf) {
	r := g.r
	g.vocab.ids = []string{"apple", "b", "c%d", "One file", "x"}
	g.vocab.pls = []string{"apples", "bs", "many"}
	g.vocab.ctxs = []string{"ctx", "c2", "menu"}
	g.vocab.doms = []string{"dom", "other", "messages"}
	for i := 0; i < 6; i++ {
		g.vocab.ids = append(g.vocab.ids, g.xtext())
	}
	for i := 0; i < 3; i++ {
		g.vocab.pls = append(g.vocab.pls, g.xtext())
		g.vocab.ctxs = append(g.vocab.ctxs, g.xtext())
	}
	if r.chance(0.3) {
		g.vocab.ctxs = append(g.vocab.ctxs, "")
	}
	root := []string{}
	module := pick(r, []string{"example.com/m", "example.com/m", "m", "app/x", "gotext", "github.com/leonelquinteros/gotextapp"})
	g.module = module
	if r.chance(0.2) {
		root = []string{pick(r, []string{"mod", "a"})}
	}
	dirs := [][]string{root}
	seen := map[string]bool{strings.Join(root, "/"): true}
	names := []string{"a", "b", "ab", "abc", "log", "util", "cmd", "a-b", "strings", "sort", "gotext"}
	for n := 1 + r.Intn(c.pkgs); len(g.pkgs) < n; {
		parent := pick(r, dirs)
		d := parent
		leaf := false
		if !(len(g.pkgs) == 0 && r.chance(0.5)) {
			n := pick(r, names)
			if r.chance(0.1) {
				n, leaf = pick(r, []string{"testdata", "_x", ".hid"}), true
			}
			for _, s := range parent {
				leaf = leaf || s == "testdata" || s[0] == '_' || s[0] == '.'
			}
			d = append(append([]string{}, parent...), n)
			if seen[strings.Join(d, "/")] {
				continue
			}
			seen[strings.Join(d, "/")] = true
			dirs = append(dirs, d)
			if r.chance(0.15) {
				continue // a directory without a package
			}
		} else if len(root) > 0 && r.chance(0.5) {
			continue
		}
		for _, q := range g.pkgs {
			if strings.Join(q.dir, "/") == strings.Join(d, "/") {
				d = nil
			}
		}
		if d == nil {
			continue
		}
		p := &xpkg{dir: d, path: strings.Join(append([]string{module}, d[len(root):]...), "/"), leaf: leaf}
		p.name = strings.NewReplacer("-", "", "_", "", ".", "").Replace(p.path[strings.LastIndex(p.path, "/")+1:])
		if r.chance(0.25) {
			p.name = pick(r, []string{"alpha", "beta", "util", "gotext", "i18n", "strings"})
		}
		p.gotext = r.chance(0.8)
		p.homonyms = r.chance(0.3)
		for _, q := range g.pkgs {
			if !q.leaf && q.name != "main" && r.chance(0.6) {
				p.uses = append(p.uses, q)
			}
		}
		if r.chance(0.15) {
			p.name = "main"
		}
		g.pkgs = append(g.pkgs, p)
		for k, nf := 0, 1+r.Intn(2); k < nf; k++ {
			f := &xfile{pkg: p, name: pick(r, []string{"a", "main", "util", "z"}) + fmt.Sprint(k) + ".go", funcs: [][]xlocal{{}}}
			p.files = append(p.files, f)
			used := map[string]bool{}
			imp := func(name, path string) {
				for _, n := range append([]string{name}, "t", "gt", "i18n", "tr", "lib", "lib2", "lib3", "lib4", "lib5") {
					if !used[n] && (r.chance(0.7) || n[0] == 'l') {
						used[n] = true
						f.imports = append(f.imports, [2]string{n, path})
						return
					}
				}
			}
			for _, q := range p.uses {
				if r.chance(0.85) {
					imp(q.name, q.path)
				}
			}
			if p.gotext && (k == 0 || r.chance(0.7)) {
				imp("gotext", gotextPath)
				if r.chance(0.2) {
					imp("gt", gotextPath)
				}
			}
			if r.chance(0.25) {
				s := pick(r, []string{"errors", "sort", "strings", "unicode"})
				imp(s, s)
			}
			r.Shuffle(len(f.imports), func(i, j int) { f.imports[i], f.imports[j] = f.imports[j], f.imports[i] })
		}
		g.declare(p)
		for _, f := range p.files {
			g.f = f
			for k := 0; k < 1+r.Intn(c.stmts); k++ {
				if r.chance(0.25) {
					g.fn, g.locals = 1, nil
					fmt.Fprintf(&f.src, pick(r, xouter)+"\n\n", g.call(0))
				} else {
					g.function(&f.src)
				}
			}
		}
	}
}

// xtext is a message text that Go and PO files can hold.
func (g *xgen) xtext() string {
	for {
		s := g.r.text()
		if len(s) < 200 && utf8.ValidString(s) {
			return s
		}
	}
}

func (g *xgen) js() any {
	types, names, files := []any{}, []any{}, []any{}
	for _, p := range g.pkgs {
		for _, d := range p.decls {
			m := map[string]any{"pkg": p.path, "name": d.name, "k": d.k}
			if d.k == "alias" {
				m["is"] = d.is.js()
			} else {
				m["k"] = "struct"
				fs, ms := []any{}, []any{}
				for _, f := range d.fields {
					e := 0
					if f.emb {
						e = 1
					}
					fs = append(fs, []any{f.name, f.t.js(), e})
				}
				for _, f := range d.methods {
					ms = append(ms, []any{f.name, f.t.js()})
				}
				m["fields"], m["methods"] = fs, ms
			}
			types = append(types, m)
		}
		for _, n := range p.names {
			names = append(names, map[string]any{"pkg": p.path, "name": n.name, "t": n.t.js()})
		}
		for _, f := range p.files {
			files = append(files, f.js())
		}
	}
	return map[string]any{"types": types, "names": names, "files": files}
}

// ---- running xgotext ---------------------------------------------------------------------

// gotextCopy puts the packages of gotext that programs import into a module of their own.
func gotextCopy(dir string) {
	src := os.Getenv("GOTEXT_REPO")
	if src == "" {
		src = "/repo"
	}
	for _, d := range []string{"", "plurals"} {
		os.MkdirAll(filepath.Join(dir, d), 0o755)
		l, err := os.ReadDir(filepath.Join(src, d))
		if err != nil {
			panic(driverErr{err})
		}
		for _, e := range l {
			if n := e.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") {
				b, err := os.ReadFile(filepath.Join(src, d, n))
				if err != nil {
					panic(driverErr{err})
				}
				os.WriteFile(filepath.Join(dir, d, n), b, 0o644)
			}
		}
	}
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+gotextPath+"\n\ngo 1.25\n"), 0o644)
}

type driverErr struct{ error }

func (g *xgen) write(dir, gt string) {
	root := g.pkgs[0].dir
	for _, p := range g.pkgs {
		d := filepath.Join(append([]string{dir}, p.dir...)...)
		os.MkdirAll(d, 0o755)
		for _, f := range p.files {
			if err := os.WriteFile(filepath.Join(d, f.name), []byte(f.text(g.r)), 0o644); err != nil {
				panic(driverErr{err})
			}
		}
		if len(p.dir) < len(root) {
			root = p.dir
		}
	}
	_ = root
}

func readOut(dir string) (files []any, raw []any) {
	files, raw = []any{}, []any{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		files = append(files, []any{e.Name(), lex(string(b))})
		raw = append(raw, []any{e.Name(), string(b)})
	}
	return
}

func anys(l []string) []any {
	out := []any{}
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

// xrun runs the command as a user would.
func xrun(base string, op Op, out string, how int) (files, raw []any) {
	seg := func(k string) string {
		p := base
		for _, s := range op[k].([]any) {
			p = filepath.Join(p, s.(string))
		}
		return p
	}
	// one of the names a directory has
	name := func(dir string) string {
		link := out + "-link"
		os.Remove(link)
		if err := os.Symlink(dir, link); err != nil {
			panic(driverErr{err})
		}
		return link
	}
	defer os.Remove(out + "-link")
	rel := func(from, to string) string {
		p, err := filepath.Rel(from, to)
		if err != nil {
			panic(driverErr{err})
		}
		return p
	}
	var args []string
	cwd := base
	if op["mode"] == "in" {
		root := seg("root")
		args = []string{"-in", root}
		switch how {
		case 0, 1:
			cwd, args[1] = root, "."
		case 2:
			args[1] = rel(base, root) + "/"
		case 3:
			cwd = filepath.Join(base, "elsewhere")
			os.MkdirAll(cwd, 0o755)
			defer os.Remove(cwd)
			args[1] = rel(cwd, root)
		case 4:
			args[1] = name(root)
		case 5:
			cwd, args[1] = name(root), "./"
		}
		if x, ok := op["exclude"].([]any); ok {
			var l []string
			for k, s := range x {
				l = append(l, s.(string))
				switch (how + k) % 9 {
				case 2:
					l[k] += "/"
				case 3:
					l[k] = " " + l[k]
				case 4:
					l[k] = "./" + l[k]
				}
			}
			if op["dflt"] != true {
				args = append(args, "-exclude", strings.Join(l, ","))
			}
		}
	} else {
		cwd = seg("cwd")
		args = []string{"-pkg-tree", seg("at")}
		if how%3 == 0 {
			args[1] = rel(cwd, seg("at"))
		}
	}
	if op["default"] != "default" || how%2 == 0 {
		args = append(args, "-default", op["default"].(string))
	}
	args = append(args, "-out", out)
	cmd := exec.Command(os.Getenv("XGOTEXT"), args...)
	cmd.Dir = cwd
	b, err := cmd.CombinedOutput()
	op["rc"] = 0
	if err != nil {
		op["rc"] = cmd.ProcessState.ExitCode()
		s := string(b)
		if len(s) > 2000 {
			s = s[:2000]
		}
		op["output"] = s
	}
	return readOut(out)
}

func inParallel(n int, f func(k int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range ch {
				f(k)
			}
		}()
	}
	for k := 0; k < n; k++ {
		ch <- k
	}
	close(ch)
	wg.Wait()
}

func modRoot(g *xgen) []string {
	// the directory of the module's root package path
	for _, p := range g.pkgs {
		n := strings.Count(p.path, "/") - strings.Count(g.module, "/") // segments below the module
		return p.dir[:len(p.dir)-n]
	}
	return nil
}

func xprograms(name string, c xconf, runs int) {
	drivers[name] = func(r R, count int, s *sink) {
		scratch := filepath.Join(scratchRoot(), "xg")
		gt := filepath.Join(scratch, "gotext")
		gotextCopy(gt)
		seeds := make([]R, count)
		for k := range seeds {
			seeds[k] = r.child()
		}
		out := make([]trace, count)
		gens := make([]*xgen, count)
		inParallel(count, func(k int) {
			g := &xgen{r: seeds[k]}
			gens[k] = g
			g.program(c)
			dir := filepath.Join(scratch, fmt.Sprint("p", k))
			g.write(dir, gt)
			mr := modRoot(g)
			os.WriteFile(filepath.Join(append(append([]string{dir}, mr...), "go.mod")...),
				[]byte("module "+g.module+"\n\ngo 1.25\n\nrequire "+gotextPath+" v0.0.0\n\nreplace "+gotextPath+" => "+gt+"\n"), 0o644)
			if os.Getenv("XGCHECK") != "" {
				for _, p := range g.pkgs {
					cmd := exec.Command("go", "build", "-o", os.DevNull, ".")
					cmd.Dir = filepath.Join(append([]string{dir}, p.dir...)...)
					if b, err := cmd.CombinedOutput(); err != nil {
						fmt.Fprintln(os.Stderr, cmd.Dir, string(b))
					}
				}
			}
			t := trace{ID: fmt.Sprintf("%s-%d", name, k), Ops: []Op{{"op": "xprog", "prog": g.js()}}}
			for j := 0; j < runs; j++ {
				o := g.run(c, mr, j)
				od := filepath.Join(scratch, fmt.Sprintf("out%d-%d", k, j))
				var raw []any
				how := g.r.Intn(9)
				o["files"], raw = xrun(dir, o, od, how)
				t.Ops = append(t.Ops, o)
				if g.r.chance(0.3) {
					if g.r.chance(0.5) {
						os.RemoveAll(od)
					} else if l, err := os.ReadDir(od); err == nil {
						// files of an earlier run, longer than those to be written
						for _, e := range l {
							if f, err := os.OpenFile(filepath.Join(od, e.Name()), os.O_APPEND|os.O_WRONLY, 0); err == nil {
								f.WriteString("\n\n#: old.go:1\nmsgid \"older\"\nmsgstr \"\"\n")
								f.Close()
							}
						}
					}
					_, raw2 := xrun(dir, o, od, how)
					t.Ops = append(t.Ops, Op{"op": "xsame", "files": raw, "again": raw2})
				}
				os.RemoveAll(od)
			}
			out[k] = t
			if !c.trees {
				os.RemoveAll(dir)
			}
		})
		if c.trees {
			// several runs in one process
			wd, _ := os.Getwd()
			for k := 0; k < count && k < 12; k++ {
				g := gens[k]
				dir := filepath.Join(scratch, fmt.Sprint("p", k))
				for j := 0; j < 3; j++ {
					p := pick(g.r, g.pkgs)
					if j == 2 {
						// the same package again
						p = g.pkgs[len(g.pkgs)-1]
					}
					cwd := modRoot(g)
					os.Chdir(filepath.Join(append([]string{dir}, cwd...)...))
					o := Op{"op": "xrun", "mode": "tree", "pkg": p.path, "at": anys(p.dir), "cwd": anys(cwd), "default": "default", "rc": 0}
					data := &parser.DomainMap{Default: "default"}
					protect(o, func() {
						if err := pkgtree.ParsePkgTree(filepath.Join(append([]string{dir}, p.dir...)...), data, false); err != nil {
							o["rc"], o["output"] = 1, err.Error()
						}
						od := filepath.Join(scratch, "outapi")
						if err := data.Save(od); err != nil {
							o["rc"], o["output"] = 1, err.Error()
						}
						o["files"], _ = readOut(od)
						os.RemoveAll(od)
					})
					out[k].Ops = append(out[k].Ops, o)
				}
			}
			os.Chdir(wd)
		}
		for _, t := range out {
			s.put(t)
		}
		os.RemoveAll(scratch)
	}
}

func protect(o Op, f func()) {
	defer func() {
		if p := recover(); p != nil {
			o["panic"] = fmt.Sprint(p)
		}
	}()
	f()
}

// run chooses one way to call xgotext on the program.
func (g *xgen) run(c xconf, mr []string, j int) Op {
	r := g.r
	def := pick(r, []string{"default", "default", "messages", "dom"})
	if (j%2 == 0) == !c.trees || r.chance(0.3) {
		root := []string{}
		if r.chance(0.3) {
			p := pick(r, g.pkgs)
			root = p.dir[:r.Intn(len(p.dir)+1)]
		}
		o := Op{"op": "xrun", "mode": "in", "root": anys(root), "default": def, "exclude": []any{}}
		switch {
		case r.chance(0.2):
			o["exclude"], o["dflt"] = []any{".git"}, true
		case c.trees || r.chance(0.3):
			ex := []string{}
			for r.chance(0.6) {
				p := pick(r, g.pkgs)
				d := append([]string{}, p.dir...)
				if len(d) > len(root) && strings.Join(d[:len(root)], "/") == strings.Join(root, "/") {
					d = d[len(root):]
				}
				if len(d) == 0 {
					continue
				}
				d = d[:1+r.Intn(len(d))]
				if r.chance(0.3) { // something that only looks like it
					d[len(d)-1] = pick(r, []string{strings.Replace(d[len(d)-1][:1], ".", ".h", 1), d[len(d)-1] + "x", "b", "ab", "nothing", "a"})
				}
				ex = append(ex, strings.Join(d, "/"))
			}
			sort.Strings(ex)
			r.Shuffle(len(ex), func(i, j int) { ex[i], ex[j] = ex[j], ex[i] })
			o["exclude"] = anys(ex)
		}
		return o
	}
	p := pick(r, g.pkgs)
	if r.chance(0.5) {
		p = g.pkgs[len(g.pkgs)-1]
	}
	cwd := mr
	if r.chance(0.4) {
		cwd = pick(r, g.pkgs).dir
	} else if r.chance(0.2) {
		cwd = []string{}
	}
	return Op{"op": "xrun", "mode": "tree", "pkg": p.path, "at": anys(p.dir), "cwd": anys(cwd), "default": def}
}

// ---- messages given to the parser package in different orders --------------------------

var xdefs = map[string]parser.GetterDef{
	"Get": {ID: 0, Plural: -1, Context: -1, Domain: -1}, "GetN": {ID: 0, Plural: 1, Context: -1, Domain: -1},
	"GetD": {ID: 1, Plural: -1, Context: -1, Domain: 0}, "GetND": {ID: 1, Plural: 2, Context: -1, Domain: 0},
	"GetC": {ID: 0, Plural: -1, Context: 1, Domain: -1}, "GetNC": {ID: 0, Plural: 1, Context: 3, Domain: -1},
	"GetDC": {ID: 1, Plural: -1, Context: 2, Domain: 0}, "GetNDC": {ID: 1, Plural: 2, Context: 4, Domain: 0},
}

func init() {
	xprograms("C19", xconf{pkgs: 3, stmts: 7}, 2)
	xprograms("C21", xconf{pkgs: 9, stmts: 1, trees: true}, 4)
	drivers["C20"] = func(r R, count int, s *sink) {
		for k := 0; k < count; k++ {
			s.put(xmessages(r.child(), fmt.Sprintf("C20-%d", k)))
		}
	}
}

func xmessages(r R, id string) trace {
	g := &xgen{r: r}
	small := r.chance(0.5)
	n := 4 + r.Intn(12)
	if small {
		n = 3
	}
	texts := func(n int) (l []string) {
		for i := 0; i < n; i++ {
			if r.chance(0.5) {
				l = append(l, g.xtext())
			} else {
				l = append(l, pick(r, []string{"a", "b", "A", "ab", "a b", "a-b", "Z", "z", "10", "9", "ä", "a\"b", "a\\b", "a\nb"}))
			}
		}
		return
	}
	g.vocab.ids, g.vocab.pls, g.vocab.ctxs = texts(n), texts(3), texts(3)
	g.vocab.doms = []string{"dom", "other", "default", "d.e", "ü", "with space"}
	if r.chance(0.2) {
		g.vocab.ctxs = append(g.vocab.ctxs, "")
	}
	var calls []any
	type one struct {
		m    string
		args []*ast.BasicLit
		ref  string
	}
	var all []one
	k := 1 + r.Intn(20)
	if r.chance(0.05) { // a text that is used in many places
		k = 30 + r.Intn(150)
		g.vocab.ids, g.vocab.pls, g.vocab.ctxs, g.vocab.doms = g.vocab.ids[:1+r.Intn(2)], g.vocab.pls[:1], g.vocab.ctxs[:1], g.vocab.doms[:1]
	}
	if r.chance(0.05) {
		g.vocab.ids[0] = strings.Repeat(pick(r, []string{"text ", "a\n", "\"", "\\", "ä"})+g.xtext(), 20)
	}
	used := map[string]bool{}
	for i := 0; i < k; i++ {
		o := one{m: pick(r, sortedKeys(xsig)), ref: fmt.Sprintf("%s%s.go:%d", pick(r, []string{"", "a/", "a/b/", "../"}), pick(r, []string{"x", "y", "z_1"}), i*r.Intn(9)*10+i)}
		if used[o.ref] {
			continue
		}
		used[o.ref] = true
		var args []any
		for _, c := range []byte(xsig[o.m]) {
			if c == 'n' {
				o.args = append(o.args, nil)
				args = append(args, map[string]any{"o": 1})
				continue
			}
			t := g.text(c)
			o.args = append(o.args, &ast.BasicLit{Kind: token.STRING, Value: g.literal(t)})
			args = append(args, map[string]any{"s": t})
		}
		all = append(all, o)
		calls = append(calls, map[string]any{"m": o.m, "args": args, "ref": o.ref})
	}
	def := pick(r, []string{"default", "messages", "dom"})
	t := trace{ID: id}
	o := Op{"op": "xmsgs", "calls": calls, "default": def}
	var back Op
	protect(o, func() {
		outs := []any{}
		for k := 0; k < 4; k++ {
			data := &parser.DomainMap{Default: def}
			if def == "default" && r.chance(0.5) {
				data.Default = ""
			}
			gf := &parser.GoFile{Data: data}
			perm := r.Perm(len(all))
			if k == 0 {
				sort.Ints(perm)
			}
			for _, i := range perm {
				gf.ParseGetter(xdefs[all[i].m], all[i].args, all[i].ref)
			}
			dir := filepath.Join(scratchRoot(), "xgmsgs")
			if err := data.Save(dir); err != nil {
				panic(err)
			}
			files, _ := readOut(dir)
			outs = append(outs, files)
			if k == 0 {
				back = Op{"op": "xback", "calls": calls, "default": def}
				protect(back, func() { back["back"] = readBack(dir) })
			}
			os.RemoveAll(dir)
		}
		o["outs"] = outs
	})
	t.Ops = append(t.Ops, o)
	if back != nil {
		t.Ops = append(t.Ops, back)
	}
	return t
}

// readBack reads POT files with gotext's own parser: for each the domain and the entries.
func readBack(dir string) []any {
	res := []any{}
	l, _ := os.ReadDir(dir)
	for _, e := range l {
		po := gotext.NewPo()
		po.ParseFile(filepath.Join(dir, e.Name()))
		ents := []any{}
		add := func(ctx string, tr *gotext.Translation) {
			if tr.ID != "" {
				ents = append(ents, map[string]any{"c": ctx, "i": tr.ID, "p": tr.PluralID, "r": anys(tr.Refs)})
			}
		}
		for _, k := range sortedKeys(po.GetDomain().GetTranslations()) {
			add("", po.GetDomain().GetTranslations()[k])
		}
		cs := po.GetDomain().GetCtxTranslations()
		for _, c := range sortedKeys(cs) {
			for _, k := range sortedKeys(cs[c]) {
				add(ctxName(c), cs[c][k])
			}
		}
		res = append(res, []any{strings.TrimSuffix(e.Name(), ".pot"), ents})
	}
	return res
}

func scratchRoot() string {
	if d := os.Getenv("GOTEXT_SCRATCH"); d != "" {
		return d
	}
	return os.TempDir()
}
