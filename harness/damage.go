package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"testing/fstest"
	"time"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/plurals"
)

// Calls about damaged input.

// chaos uses everything an object has, whatever state it is in.
func (o *object) chaos() {
	ids := []string{"", "a", "one"}
	for k := range o.dom.GetTranslations() {
		if len(ids) < 30 {
			ids = append(ids, k)
		}
	}
	ctxs := []string{"", "c"}
	for c, m := range o.dom.GetCtxTranslations() {
		if len(ctxs) < 10 {
			ctxs = append(ctxs, c)
		}
		for k := range m {
			if len(ids) < 40 {
				ids = append(ids, k)
			}
		}
	}
	sort.Strings(ids)
	use := func() {
		for _, via := range []string{"", "dom"} {
			l := o.look(via)
			for _, c := range ctxs {
				for _, i := range ids {
					for _, n := range []int{0, 1, 2, 5, 21, 1 << 31} {
						l.GetN(i, i+"s", n, "x")
						l.IsTranslatedN(i, n)
						l.GetNC(i, i+"s", n, c)
						l.IsTranslatedNC(i, n, c)
						l.AppendN(nil, i, i, n)
						l.AppendNC(nil, i, i, n, c)
					}
					l.Get(i, 1)
					l.GetC(i, c)
					l.Append(nil, i)
					l.AppendC(nil, i, c)
					l.IsTranslated(i)
					l.IsTranslatedC(i, c)
					o.dom.GetRefs(i)
				}
			}
		}
		o.dom.Headers.Get("Language")
		if _, err := o.dom.MarshalText(); err != nil {
			panic("MarshalText fails: " + err.Error())
		}
		b, err := o.look("").MarshalBinary()
		if err != nil {
			panic("MarshalBinary fails: " + err.Error())
		}
		p := gotext.NewPo()
		if err := p.UnmarshalBinary(b); err != nil {
			panic("what was marshalled does not decode: " + err.Error())
		}
	}
	use()
	for _, i := range ids {
		o.dom.Set(i, "s")
		o.dom.SetC(i, "c", "s")
		o.dom.SetN(i, "p", 2, "s")
		o.dom.SetNC(i, "p", "c", 2, "s")
		o.dom.SetRefs(i, []string{"x:1"})
		if o.dom.Get(i) != "s" && i != "" {
			panic("what was set is not there")
		}
	}
	o.dom.Headers.Set("X", "y")
	use()
	if o.po != nil {
		o.po.Parse([]byte("msgid \"new\"\nmsgstr \"entry\"\n"))
		if o.po.Get("new") != "entry" {
			panic("the object parses nothing any more")
		}
	}
	o.dom.DropStaleTranslations()
	use()
}

func chaosLocale(l *gotext.Locale) {
	l.GetDomain()
	l.GetLanguage()
	for d, t := range l.Domains {
		l.GetD(d, "a")
		l.GetNDC(d, "a", "b", 3, "c")
		l.IsTranslatedNDC(d, "a", 3, "c")
		l.GetActualLanguage(d)
		if t != nil {
			(&object{kind: "dom", dom: t.GetDomain()}).chaos()
		}
	}
	l.GetTranslations()
	l.Get("x")
	l.AddDomain("no such domain")
	l.SetDomain("d")
	if _, err := l.MarshalBinary(); err != nil {
		panic("MarshalBinary fails: " + err.Error())
	}
}

// execDamage makes one call on damaged input; it reports whether it knows the call.
func (w *world) execDamage(op Op) bool {
	o := w.objs[str(op, "o")]
	switch op["op"] {
	case "same":
	case "chaos":
		guard(op, "", func() { o.chaos() })
	case "badbin":
		// decoded into something else first: what decodes after all must be usable, and is of no interest here
		guard(op, "", func() {
			data := []byte(str(op, "data"))
			t := newObject("po")
			if err := t.po.UnmarshalBinary(data); err == nil {
				op["op"] = "nop"
				t.chaos()
				return
			}
			if err := o.look(str(op, "via")).UnmarshalBinary(data); err == nil {
				panic("decoding succeeds on one object and fails on another")
			}
		})
	case "lbadbin":
		guard(op, "", func() {
			data := []byte(str(op, "data"))
			t := new(gotext.Locale)
			if err := t.UnmarshalBinary(data); err == nil {
				op["op"] = "nop"
				chaosLocale(t)
				return
			}
			if err := w.files().locs[str(op, "l")].UnmarshalBinary(data); err == nil {
				panic("decoding succeeds on one locale and fails on another")
			}
		})
	case "cost":
		// memory allocated by parsing, against what its input explains
		guard(op, false, func() {
			data := []byte(str(op, "img"))
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			base, factor := uint64(8<<20), uint64(200)
			work := func() {}
			switch str(op, "what") {
			case "mo":
				work = func() { gotext.NewMo().Parse(data) }
			case "text":
				factor = 1000
				work = func() { gotext.NewPo().Parse(data) }
			case "rule":
				factor = 1000
				work = func() { plurals.Compile(string(data)) }
			case "bin":
				base = 24 << 20 // gob may allocate 10 MB for one damaged number
				work = func() { _ = gotext.NewPo().UnmarshalBinary(data) }
			case "lbin":
				base = 24 << 20
				work = func() { _ = new(gotext.Locale).UnmarshalBinary(data) }
			}
			start := time.Now()
			work()
			took := time.Since(start)
			runtime.ReadMemStats(&b)
			op["obs"] = b.TotalAlloc-a.TotalAlloc <= base+factor*uint64(len(data)) && took < 30*time.Second
		})
	case "leak":
		guard(op, false, func() {
			before := runtime.NumGoroutine()
			for _, s := range strs(op["rules"]) {
				plurals.Compile(s)
			}
			for k := 0; k < 100 && runtime.NumGoroutine() > before; k++ {
				time.Sleep(time.Millisecond)
			}
			op["obs"] = runtime.NumGoroutine() <= before
		})
	case "parsefile":
		// nothing there to be read
		guard(op, "", func() {
			x := w.files()
			switch str(op, "how") {
			case "missing":
				o.parseFile(filepath.Join(x.dir, "no such file"))
			case "dir":
				d := filepath.Join(x.dir, "dir.po")
				os.MkdirAll(d, 0o755)
				o.parseFile(d)
			case "below":
				f := filepath.Join(x.dir, "plainfile")
				os.WriteFile(f, []byte("msgid \"one\"\nmsgstr \"from below\"\n"), 0o644)
				o.parseFile(filepath.Join(f, "x.po"))
			case "dangling":
				f := filepath.Join(x.dir, "link.po")
				os.Symlink("nowhere", f)
				o.parseFile(f)
			case "empty":
				o.parseFile("")
			}
		})
	case "ents":
		guard(op, []any{}, func() {
			out := []map[string]any{}
			tr, ct := o.dom.GetTranslations(), o.dom.GetCtxTranslations()
			for _, k := range op["keys"].([]any) {
				kk := strs(k)
				t := tr[kk[1]]
				if kk[0] != "" {
					t = ct[ctx(kk[0])][kk[1]]
				}
				if t != nil {
					out = append(out, transView(kk[0], kk[1], t))
				}
			}
			op["obs"] = out
		})
	default:
		return false
	}
	return true
}

func (o *object) parseFile(path string) {
	if o.po != nil {
		o.po.ParseFile(path)
	} else {
		o.mo.ParseFile(path)
	}
}

// readFile has the object read a file with these contents.
func (o *object) readFile(x *i18n, data []byte) {
	if o.mem != nil {
		o.mem["dir/file.x"] = &fstest.MapFile{Data: data}
		o.parseFile("dir/file.x")
		return
	}
	f := filepath.Join(x.dir, fmt.Sprint("file-", scratchN.Load(), ".x"))
	if err := os.WriteFile(f, data, 0o644); err != nil {
		panic(err)
	}
	o.parseFile(f)
}
