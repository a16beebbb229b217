package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io/fs"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
)

// An Op is one call on the real code, with its arguments and what was observed ("obs").
type Op = map[string]any

// looker is what Domain, Po and Mo have in common.
type looker interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

type setter interface {
	Set(id, str string)
	SetN(id, plural string, n int, str string)
	SetC(id, ctx, str string)
	SetNC(id, plural, ctx string, n int, str string)
	SetRefs(str string, refs []string)
	GetRefs(str string) []string
	DropStaleTranslations()
	SetPluralResolver(f func(int) int)
	MarshalText() ([]byte, error)
}

type object struct {
	kind string
	po   *gotext.Po
	mo   *gotext.Mo
	dom  *gotext.Domain
	mem  fstest.MapFS // the file system it reads from, if not that of the machine
	loc  *gotext.Locale
}

// locale is one that the object is attached to, alone or next to empty domains.
func (o *object) locale() *gotext.Locale {
	if o.loc == nil {
		o.loc = gotext.NewLocale("/nonexistent", "xx")
		if o.po != nil {
			o.loc.AddTranslator("d", o.po)
		} else {
			o.loc.AddTranslator("d", o.mo)
			o.loc.AddTranslator("e", gotext.NewPo())
		}
	}
	return o.loc
}

func newObject(kind string) *object {
	mem := fstest.MapFS{}
	var filesystem fs.FS = mem
	if strings.HasSuffix(kind, "bare") {
		kind, filesystem = strings.TrimSuffix(kind, "bare")+"fs", bareFS{mem}
	}
	switch kind {
	case "pofs":
		p := gotext.NewPoFS(filesystem)
		return &object{kind: "po", po: p, dom: p.GetDomain(), mem: mem}
	case "mofs":
		m := gotext.NewMoFS(filesystem)
		return &object{kind: "mo", mo: m, dom: m.GetDomain(), mem: mem}
	case "po":
		p := gotext.NewPo()
		return &object{kind: kind, po: p, dom: p.GetDomain()}
	case "mo":
		m := gotext.NewMo()
		return &object{kind: kind, mo: m, dom: m.GetDomain()}
	default:
		return &object{kind: "dom", dom: gotext.NewDomain()}
	}
}

func (o *object) look(via string) looker {
	if via == "dom" || o.kind == "dom" {
		return o.dom
	}
	if o.po != nil {
		return o.po
	}
	return o.mo
}

func (o *object) set(via string) setter {
	if o.po != nil && via != "dom" {
		return o.po
	}
	return o.dom
}

var resolvers = map[string]func(int) int{
	"zero":   func(int) int { return 0 },
	"one":    func(int) int { return 1 },
	"two":    func(int) int { return 2 },
	"mod3":   func(n int) int { return int(uint32(n) % 3) },
	"tens":   func(n int) int { return int(uint32(n) % 13) },
	"last":   func(n int) int { return int(uint32(n) % 10) },
	"french": func(n int) int { return map[bool]int{true: 1, false: 0}[n > 1] },
}

type world struct {
	objs  map[string]*object
	snaps map[string]any
	*i18n
}

func newWorld() *world { return &world{objs: map[string]*object{}, snaps: map[string]any{}} }

func str(op Op, k string) string {
	if v, ok := op[k].(string); ok {
		return v
	}
	return ""
}
func num(op Op) int {
	switch l := op["n"].(type) {
	case []int:
		return l[0]<<16 | l[1]
	case []any:
		return int(l[0].(float64))<<16 | int(l[1].(float64))
	}
	return 0
}
func strs(v any) []string {
	switch l := v.(type) {
	case []string:
		return l
	case []any:
		r := []string{}
		for _, x := range l {
			r = append(r, x.(string))
		}
		return r
	}
	return nil
}
func joinAtoms(v any) string {
	var b bytes.Buffer
	for _, a := range strs(v) {
		b.WriteString(a)
	}
	return b.String()
}

// vars turns the recorded arguments into Go values. Absent arguments give nil.
func vars(op Op, again ...func()) []interface{} {
	l, _ := op["args"].([]any)
	r := []interface{}{}
	for _, x := range l {
		m := x.(map[string]any)
		if rich(m) {
			r = append(r, richVar(m))
		} else if m["t"] == "l" {
			r = append(r, asker{m["v"].(string), again})
		} else if m["t"] == "i" {
			switch v := m["v"].(type) {
			case int:
				r = append(r, v)
			case float64:
				r = append(r, int(v))
			}
		} else {
			if g, ok := op["gate"].(*gate); ok && m["g"] == true {
				r = append(r, gated{m["v"].(string), g, again})
				continue
			}
			r = append(r, m["v"].(string))
		}
	}
	return r
}

// An asker looks up what is being looked up while it is formatted; it formats as its string.
type asker struct {
	s     string
	again []func()
}

func (k asker) Format(f fmt.State, verb rune) {
	for _, again := range k.again {
		again()
	}
	fmt.Fprintf(f, fmt.FormatString(f, verb), k.s)
}

// In histories no context is "", and the empty context this.
const emptyCtx = "<empty>"

func ctx(c string) string {
	if c == emptyCtx {
		return ""
	}
	return c
}

func ctxName(c string) string {
	if c == "" {
		return emptyCtx
	}
	return c
}

func transView(ctx, key string, t *gotext.Translation) map[string]any {
	idx := []int{}
	for i := range t.Trs {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	f := [][]string{}
	for _, i := range idx {
		f = append(f, []string{fmt.Sprint(i), t.Trs[i]})
	}
	refs := t.Refs
	if refs == nil {
		refs = []string{}
	}
	id := t.ID
	if id != key {
		id = "KEY " + key + " HOLDS " + id
	}
	return map[string]any{"c": ctx, "i": id, "p": t.PluralID, "f": f, "r": append([]string{}, refs...), "s": t.IsStale()}
}

func viewTrans(m map[string]*gotext.Translation) []map[string]any {
	out := []map[string]any{}
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		out = append(out, transView("", k, m[k]))
	}
	return out
}

func viewCtx(m map[string]map[string]*gotext.Translation) []map[string]any {
	out := []map[string]any{}
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, c := range keys {
		ids := []string{}
		for k := range m[c] {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, i := range ids {
			out = append(out, transView(ctxName(c), i, m[c][i]))
		}
	}
	return out
}

func viewSnap(s any) []map[string]any {
	switch m := s.(type) {
	case map[string]*gotext.Translation:
		return viewTrans(m)
	case map[string]map[string]*gotext.Translation:
		return viewCtx(m)
	}
	return nil
}

func headersView(h gotext.HeaderMap) []any {
	keys := []string{}
	for k := range h {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := []any{}
	for _, k := range keys {
		out = append(out, []any{k, append([]string{}, h[k]...)})
	}
	return out
}

// spare hands out a prefix with room behind it, filled with a marker, so that an Append that writes
// where it should not is seen.
func prefix(op Op) []byte {
	p := str(op, "pre")
	b := make([]byte, len(p), len(p)+[]int{64, 0, 1, 3, 4096, 16}[(len(str(op, "i"))+len(p))%6])
	copy(b, p)
	return b
}

// What is handed to the library and what it returns is the caller's to change.
func spoil(bs ...[]byte) {
	for _, b := range bs {
		for i := range b {
			b[i] = '!'
		}
	}
}

// taken returns a copy of a list and spoils it.
func taken(l []string) []string {
	out := append([]string{}, l...)
	for i := range l {
		l[i] = "!"
	}
	return out
}

// guard runs f and records a panic of the code under test.
func guard(op Op, zero any, f func()) {
	begin(op)
	defer end()
	defer func() {
		if r := recover(); r != nil {
			op["panic"] = fmt.Sprint(r)
			op["obs"] = zero
		}
	}()
	f()
}

func (w *world) run(ops []Op) {
	for _, op := range ops {
		w.exec(op)
	}
}

// exec makes one call on a catalogue.
func (w *world) exec(op Op) {
	if execPure(op) || w.execDamage(op) || w.execI18n(op) {
		return
	}
	o := w.objs[str(op, "o")]
	via := str(op, "via")
	c, i, p, s := str(op, "c"), str(op, "i"), str(op, "p"), str(op, "s")
	n := num(op)
	again := func() {
		if c == "" {
			o.look(via).Get(i)
			o.look(via).GetN(i, p, n)
			o.look(via).IsTranslated(i)
		} else {
			o.look(via).GetC(i, ctx(c))
			o.look(via).GetNC(i, p, n, ctx(c))
			o.look(via).IsTranslatedC(i, ctx(c))
		}
	}
	switch op["op"] {
	case "new":
		guard(op, "", func() { w.objs[str(op, "o")] = newObject(str(op, "kind")) })
	case "set":
		guard(op, "", func() {
			if c == "" {
				o.set(via).Set(i, s)
			} else {
				o.set(via).SetC(i, ctx(c), s)
			}
		})
	case "setn":
		guard(op, "", func() {
			if c == "" {
				o.set(via).SetN(i, p, n, s)
			} else {
				o.set(via).SetNC(i, p, ctx(c), n, s)
			}
		})
	case "get":
		guard(op, "", func() {
			if c == "" {
				op["obs"] = o.look(via).Get(i, vars(op, again)...)
			} else {
				op["obs"] = o.look(via).GetC(i, ctx(c), vars(op, again)...)
			}
		})
	case "getn":
		guard(op, "", func() {
			if c == "" {
				op["obs"] = o.look(via).GetN(i, p, n, vars(op, again)...)
			} else {
				op["obs"] = o.look(via).GetNC(i, p, n, ctx(c), vars(op, again)...)
			}
		})
	case "append":
		guard(op, "", func() {
			b := prefix(op)
			var out []byte
			if c == "" {
				out = o.look(via).Append(b, i, vars(op, again)...)
			} else {
				out = o.look(via).AppendC(b, i, ctx(c), vars(op, again)...)
			}
			op["obs"] = string(out)
			if string(b) != str(op, "pre") {
				op["obs"] = "PREFIX CHANGED"
			}
			spoil(b, out)
		})
	case "appendn":
		guard(op, "", func() {
			b := prefix(op)
			var out []byte
			if c == "" {
				out = o.look(via).AppendN(b, i, p, n, vars(op, again)...)
			} else {
				out = o.look(via).AppendNC(b, i, p, n, ctx(c), vars(op, again)...)
			}
			op["obs"] = string(out)
			if string(b) != str(op, "pre") {
				op["obs"] = "PREFIX CHANGED"
			}
			spoil(b, out)
		})
	case "istr":
		guard(op, false, func() {
			if c == "" {
				op["obs"] = o.look(via).IsTranslated(i)
			} else {
				op["obs"] = o.look(via).IsTranslatedC(i, ctx(c))
			}
		})
	case "istrn":
		guard(op, false, func() {
			if c == "" {
				op["obs"] = o.look(via).IsTranslatedN(i, n)
			} else {
				op["obs"] = o.look(via).IsTranslatedNC(i, n, ctx(c))
			}
		})
	case "setrefs":
		guard(op, "", func() {
			l := append([]string{}, strs(op["r"])...)
			o.set(via).SetRefs(i, l)
			taken(l)
		})
	case "getrefs":
		guard(op, []string{}, func() { op["obs"] = taken(o.set(via).GetRefs(i)) })
	case "drop":
		guard(op, "", func() { o.set(via).DropStaleTranslations() })
	case "res":
		guard(op, "", func() {
			f := resolvers[str(op, "r")]
			if g, ok := op["gate"].(*gate); ok {
				h := f
				f = func(n int) int { g.pass(); return h(n) }
			}
			o.set(via).SetPluralResolver(f)
		})
	case "parse":
		guard(op, "", func() {
			if op["how"] == "file" {
				o.readFile(w.files(), []byte(joinAtoms(op["text"])))
			} else {
				b := []byte(joinAtoms(op["text"]))
				o.po.Parse(b)
				spoil(b)
			}
		})
	case "parsemo":
		guard(op, "", func() {
			if op["how"] == "file" {
				o.readFile(w.files(), []byte(str(op, "img")))
			} else {
				b := []byte(str(op, "img"))
				o.mo.Parse(b)
				spoil(b)
			}
		})
	case "hset":
		guard(op, "", func() { o.dom.Headers.Set(str(op, "k"), s) })
	case "hadd":
		guard(op, "", func() { o.dom.Headers.Add(str(op, "k"), s) })
	case "hdel":
		guard(op, "", func() { o.dom.Headers.Del(str(op, "k")) })
	case "hget":
		guard(op, "", func() { op["obs"] = o.dom.Headers.Get(str(op, "k")) })
	case "hvals":
		guard(op, []string{}, func() { op["obs"] = append([]string{}, o.dom.Headers.Values(str(op, "k"))...) })
	case "fmt":
		guard(op, "", func() { op["obs"] = format(str(op, "how"), s, vars(op)) })
	case "snap":
		guard(op, []any{}, func() {
			var v any
			if op["wc"] == true {
				v = o.dom.GetCtxTranslations()
			} else if via == "loc" && o.kind != "dom" {
				v = o.locale().GetTranslations()
			} else {
				v = o.dom.GetTranslations()
			}
			w.snaps[str(op, "name")] = v
			op["obs"] = viewSnap(v)
		})
	case "resnap":
		guard(op, []any{}, func() { op["obs"] = viewSnap(w.snaps[str(op, "name")]) })
	case "mutsnap":
		guard(op, "", func() { mutateSnap(w.snaps[str(op, "name")]) })
	case "text":
		guard(op, []any{}, func() {
			b, err := o.set(via).MarshalText()
			if err != nil {
				panic(err)
			}
			if op["once"] == true { // others may change it before a second look
				op["obs"], op["same"], op["fix"] = lex(string(b)), true, true
				spoil(b)
				return
			}
			b2, _ := o.dom.MarshalText()
			op["obs"] = lex(string(b))
			op["same"] = bytes.Equal(b, b2)
			// marshalling what the text says gives the text again
			q := gotext.NewPo()
			q.Parse(b)
			b3, _ := q.MarshalText()
			op["fix"] = bytes.Equal(b, b3)
			spoil(b, b2, b3)
		})
	case "bin":
		guard(op, "", func() {
			b, err := o.look(via).MarshalBinary()
			if err != nil {
				panic(err)
			}
			t := w.objs[str(op, "to")]
			if str(op, "how") == "gettranslator" {
				te := new(gotext.TranslatorEncoding)
				if err := gob.NewDecoder(bytes.NewReader(b)).Decode(te); err != nil {
					panic(err)
				}
				if b, err = te.GetTranslator().MarshalBinary(); err != nil {
					panic(err)
				}
			}
			if err := t.look(str(op, "tovia")).UnmarshalBinary(b); err != nil {
				panic(err)
			}
			spoil(b)
		})
	case "reads": // what a new catalogue makes of a text
		guard(op, []any{}, func() {
			p := gotext.NewPo()
			p.Parse([]byte(joinAtoms(op["text"])))
			d := p.GetDomain()
			op["obs"] = append(viewTrans(d.GetTranslations()), viewCtx(d.GetCtxTranslations())...)
		})
	case "binsnap": // what an encoding says
		guard(op, []any{}, func() {
			b, err := o.look(via).MarshalBinary()
			if err != nil {
				panic(err)
			}
			d := gotext.NewDomain()
			if err := d.UnmarshalBinary(b); err != nil {
				panic(err)
			}
			op["obs"] = append(viewTrans(d.GetTranslations()), viewCtx(d.GetCtxTranslations())...)
		})
	case "headers":
		guard(op, Op{"h": []any{}, "l": "", "pf": ""}, func() {
			h, l, pf := o.dom.Headers, o.dom.Language, o.dom.PluralForms
			if via != "dom" && o.po != nil {
				h, l, pf = o.po.Headers, o.po.Language, o.po.PluralForms
			} else if via != "dom" && o.mo != nil {
				h, l, pf = o.mo.Headers, o.mo.Language, o.mo.PluralForms
			}
			op["obs"] = Op{"h": headersView(h), "l": l, "pf": pf}
		})
	default:
		panic(fmt.Sprint("unknown op ", op["op"]))
	}
}

// mutateSnap damages everything a caller can reach from a snapshot.
func mutateSnap(s any) {
	hurt := func(m map[string]*gotext.Translation) {
		for k, t := range m {
			t.ID += "!"
			t.PluralID += "!"
			for i := range t.Trs {
				t.Trs[i] = "hurt"
			}
			t.Trs[77] = "hurt"
			for i := range t.Refs {
				t.Refs[i] = "hurt"
			}
			t.SetRefs(append(t.Refs, "more"))
			t.Set("hurt too")
			delete(m, k)
		}
		m["new"] = gotext.NewTranslation()
	}
	switch m := s.(type) {
	case map[string]*gotext.Translation:
		hurt(m)
	case map[string]map[string]*gotext.Translation:
		for k, mm := range m {
			hurt(mm)
			delete(m, k)
		}
		m["new"] = map[string]*gotext.Translation{}
	}
}
