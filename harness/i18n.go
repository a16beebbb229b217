package main

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/fstest"

	"github.com/leonelquinteros/gotext"
)

// i18n is the part of a world that has files and locales. Paths in histories are those of the
// specification: /R stands for a scratch directory of this history, other roots for an fs.FS each.
type i18n struct {
	dir  string // scratch directory
	locs map[string]*gotext.Locale
	mem  map[string]fstest.MapFS
	safe map[string]*safeFS
	bare bool // its fs.FS are bareFS
}

var scratchN atomic.Int64

// A safeFS may be changed while it is read; opening a file can be held up.
type safeFS struct {
	mu    sync.Mutex
	files map[string][]byte
	gate  *gate // the next file that is opened waits here
	late  bool  // after it has been read
	slow  int
}

func (f *safeFS) at(name string) (fstest.MapFS, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	b, ok := f.files[name]
	return fstest.MapFS{name: {Data: b}}, ok
}

func (f *safeFS) Stat(name string) (fs.FileInfo, error) {
	m, ok := f.at(name)
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrNotExist}
	}
	return fs.Stat(m, name)
}

func (f *safeFS) Open(name string) (fs.File, error) {
	if !f.late {
		f.gate.pass()
	}
	m, ok := f.at(name)
	if f.late {
		f.gate.pass()
	}
	for k := 0; k < f.slow; k++ {
		runtime.Gosched()
	}
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	return m.Open(name)
}

// A bareFS has nothing but Open, and its files give their contents in small pieces.
type bareFS struct{ fs.FS }
type bareFile struct {
	f fs.File
	k int
}

func (b bareFS) Open(name string) (fs.File, error) {
	f, err := b.FS.Open(name)
	if err != nil {
		return nil, err
	}
	if i, err := f.Stat(); err == nil && i.IsDir() {
		return f, nil
	}
	return &bareFile{f: f}, nil
}
func (b *bareFile) Stat() (fs.FileInfo, error) { return b.f.Stat() }
func (b *bareFile) Close() error               { return b.f.Close() }
func (b *bareFile) Read(p []byte) (int, error) {
	b.k++
	return b.f.Read(p[:min(len(p), []int{7, 100, 1, 512, 4096}[b.k%5])])
}

func (w *world) files() *i18n {
	if w.i18n == nil {
		base := os.Getenv("GOTEXT_SCRATCH")
		if base == "" {
			panic("GOTEXT_SCRATCH is not set")
		}
		k := scratchN.Add(1)
		d, err := os.MkdirTemp(base, fmt.Sprintf("t%d-", k))
		if err != nil {
			panic(err)
		}
		w.i18n = &i18n{dir: d, locs: map[string]*gotext.Locale{}, mem: map[string]fstest.MapFS{}, safe: map[string]*safeFS{}, bare: k%2 == 1}
	}
	return w.i18n
}

func (w *world) close() {
	if w.i18n != nil {
		os.RemoveAll(w.i18n.dir)
	}
}

// real turns a path of the specification into one of this machine, unreal does the opposite.
func (x *i18n) real(p string) string {
	if p == "/R" || strings.HasPrefix(p, "/R/") {
		return x.dir + p
	}
	return p
}
func (x *i18n) unreal(p string) string { return strings.TrimPrefix(p, x.dir) }

// fs gives the file system of a root: D... are directories, the others maps.
func (x *i18n) fs(root string) fs.FS {
	if root[0] == 'D' {
		os.MkdirAll(filepath.Join(x.dir, root), 0o755)
		return os.DirFS(filepath.Join(x.dir, root))
	}
	if root[0] == 'S' {
		if x.safe[root] == nil {
			x.safe[root] = &safeFS{files: map[string][]byte{}}
		}
		return x.safe[root]
	}
	if x.mem[root] == nil {
		x.mem[root] = fstest.MapFS{}
	}
	if x.bare {
		return bareFS{x.mem[root]}
	}
	return x.mem[root]
}

func (x *i18n) write(segs []string, data []byte) {
	switch segs[0][0] {
	case 'M':
		x.fs(segs[0])
		x.mem[segs[0]][strings.Join(segs[1:], "/")] = &fstest.MapFile{Data: data}
		return
	case 'S':
		f := x.fs(segs[0]).(*safeFS)
		f.mu.Lock()
		defer f.mu.Unlock()
		f.files[strings.Join(segs[1:], "/")] = data
		return
	}
	p := x.file(segs)
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		panic(err)
	}
	q := p
	if concurrent.Load() { // readers see the old file or the new one
		q = p + ".tmp"
	}
	if err := os.WriteFile(q, data, 0o644); err != nil {
		panic(err)
	}
	if q != p {
		if err := os.Rename(q, p); err != nil {
			panic(err)
		}
	}
}

func (x *i18n) file(segs []string) string {
	if segs[0] == "OS" {
		segs = segs[1:]
		if segs[0] != "R" {
			panic("file outside the scratch directory")
		}
	}
	return filepath.Join(x.dir, filepath.Join(segs...))
}

func (x *i18n) remove(segs []string) {
	if segs[0][0] == 'M' {
		delete(x.mem[segs[0]], strings.Join(segs[1:], "/"))
		return
	}
	os.Remove(x.file(segs))
}

func (x *i18n) nameOf(l *gotext.Locale) string {
	for _, n := range sortedKeys(x.locs) {
		if x.locs[n] == l {
			return n
		}
	}
	return "?" + l.GetLanguage()
}

// execI18n makes one call on files, a locale or the package; it reports whether it knows the call.
func (w *world) execI18n(op Op) bool {
	if _, ok := op["o"]; ok {
		return false // a call on a catalogue
	}
	d, c, i, p := str(op, "d"), str(op, "c"), str(op, "i"), str(op, "p")
	_, hasD := op["d"]
	n := num(op)
	name, _ := op["op"].(string)
	if _, pkg := op["pkg"]; pkg {
		x := w.files()
		again := func() {
			x.pkgGet(hasD, d, c, i, nil)
			x.pkgGetN(hasD, d, c, i, p, n, nil)
			pkgIs(hasD, d, c, i, nil)
		}
		switch name {
		case "get":
			guard(op, "", func() { op["obs"] = x.pkgGet(hasD, d, c, i, vars(op, again)) })
		case "getn":
			guard(op, "", func() { op["obs"] = x.pkgGetN(hasD, d, c, i, p, n, vars(op, again)) })
		case "istr":
			guard(op, false, func() { op["obs"] = pkgIs(hasD, d, c, i, strs(op["langs"])) })
		case "istrn":
			guard(op, false, func() { op["obs"] = pkgIsN(hasD, d, c, i, n, strs(op["langs"])) })
		default:
			return false
		}
		return true
	}
	var l *gotext.Locale
	_, isLoc := op["l"]
	if isLoc {
		l = w.files().locs[str(op, "l")]
		switch name {
		case "get":
			guard(op, "", func() {
				a := vars(op, func() { l.GetD(d, i); l.GetDC(d, i, ctx(c)); l.IsTranslatedD(d, i) })
				switch {
				case hasD && c != "":
					op["obs"] = l.GetDC(d, i, ctx(c), a...)
				case hasD:
					op["obs"] = l.GetD(d, i, a...)
				case c != "":
					op["obs"] = l.GetC(i, ctx(c), a...)
				default:
					op["obs"] = l.Get(i, a...)
				}
			})
			return true
		case "getn":
			guard(op, "", func() {
				a := vars(op, func() { l.GetND(d, i, p, n); l.GetNDC(d, i, p, n, ctx(c)); l.GetDomain() })
				switch {
				case hasD && c != "":
					op["obs"] = l.GetNDC(d, i, p, n, ctx(c), a...)
				case hasD:
					op["obs"] = l.GetND(d, i, p, n, a...)
				case c != "":
					op["obs"] = l.GetNC(i, p, n, ctx(c), a...)
				default:
					op["obs"] = l.GetN(i, p, n, a...)
				}
			})
			return true
		case "istr":
			guard(op, false, func() {
				switch {
				case hasD && c != "":
					op["obs"] = l.IsTranslatedDC(d, i, ctx(c))
				case hasD:
					op["obs"] = l.IsTranslatedD(d, i)
				case c != "":
					op["obs"] = l.IsTranslatedC(i, ctx(c))
				default:
					op["obs"] = l.IsTranslated(i)
				}
			})
			return true
		case "istrn":
			guard(op, false, func() {
				switch {
				case hasD && c != "":
					op["obs"] = l.IsTranslatedNDC(d, i, n, ctx(c))
				case hasD:
					op["obs"] = l.IsTranslatedND(d, i, n)
				case c != "":
					op["obs"] = l.IsTranslatedNC(i, n, ctx(c))
				default:
					op["obs"] = l.IsTranslatedN(i, n)
				}
			})
			return true
		}
	}
	x := w.files()
	switch name {
	case "write":
		x.write(strs(op["path"]), []byte(joinAtoms(op["text"])))
	case "writemo":
		x.write(strs(op["path"]), []byte(str(op, "img")))
	case "rm":
		x.remove(strs(op["path"]))
	case "lnew":
		guard(op, "", func() {
			switch str(op, "how") {
			case "os":
				l = gotext.NewLocale(x.real(str(op, "path")), str(op, "lang"))
			case "fs":
				l = gotext.NewLocaleFS(str(op, "lang"), x.fs(str(op, "root")))
			case "fspath":
				l = gotext.NewLocaleFSWithPath(str(op, "lang"), x.fs(str(op, "root")), str(op, "path"))
			case "zero":
				l = new(gotext.Locale)
			}
			x.locs[str(op, "l")] = l
			op["obs"] = l.GetLanguage()
		})
	case "ladd":
		guard(op, false, func() {
			before := l.Domains[d]
			l.AddDomain(d)
			t, ok := l.Domains[d]
			op["obs"] = ok
			if t != nil && t != before {
				w.objs[str(op, "as")] = &object{kind: "dom", dom: t.GetDomain()}
			}
		})
	case "lload":
		guard(op, "", func() { l.AddDomain(d) })
	case "hold": // the next file that is opened
		f := x.fs(str(op, "root")).(*safeFS)
		f.gate, _ = op["gate"].(*gate)
		f.late, _ = op["late"].(bool)
		f.slow = int(num(op))
	case "lattach":
		guard(op, "", func() {
			if str(op, "at") == "" {
				l.AddTranslator(d, nil)
				return
			}
			o, f := w.objs[str(op, "at")], op["foreign"] == true
			switch {
			case o.po != nil && f:
				l.AddTranslator(d, foreign{o.po})
			case o.po != nil:
				l.AddTranslator(d, o.po)
			case f:
				l.AddTranslator(d, &foreign{o.mo})
			default:
				l.AddTranslator(d, o.mo)
			}
		})
	case "lset":
		guard(op, "", func() { l.SetDomain(d) })
	case "ldom":
		guard(op, "", func() { op["obs"] = l.GetDomain() })
	case "llang":
		guard(op, "", func() { op["obs"] = l.GetLanguage() })
	case "lactual":
		guard(op, "", func() { op["obs"] = l.GetActualLanguage(d) })
	case "ldoms":
		guard(op, []string{}, func() { op["obs"] = sortedKeys(l.Domains) })
	case "ltrans":
		guard(op, []any{}, func() { op["obs"] = viewTrans(l.GetTranslations()) })
	case "lbin":
		guard(op, "", func() {
			b, err := l.MarshalBinary()
			if err != nil {
				panic(err)
			}
			if err := x.locs[str(op, "to")].UnmarshalBinary(b); err != nil {
				panic(err)
			}
			spoil(b)
		})
	case "pconf":
		guard(op, "", func() { gotext.Configure(x.real(str(op, "lib")), str(op, "lang"), d) })
	case "plib":
		guard(op, "", func() { gotext.SetLibrary(x.real(str(op, "lib"))) })
	case "plang":
		guard(op, "", func() { gotext.SetLanguage(str(op, "lang")) })
	case "pdom":
		guard(op, "", func() { gotext.SetDomain(d) })
	case "plocs":
		guard(op, "", func() {
			ls := []*gotext.Locale{}
			for _, n := range strs(op["ls"]) {
				ls = append(ls, x.locs[n])
			}
			if str(op, "how") == "storage" {
				gotext.SetStorage(ls[0])
			} else {
				gotext.SetLocales(ls)
				for i := range ls {
					ls[i] = nil
				}
			}
		})
	case "pglib":
		guard(op, "", func() { op["obs"] = x.unreal(gotext.GetLibrary()) })
	case "pglangs":
		guard(op, []string{}, func() { op["obs"] = taken(gotext.GetLanguages()) })
	case "pglang":
		guard(op, "", func() { op["obs"] = gotext.GetLanguage() })
	case "pgdom":
		guard(op, "", func() { op["obs"] = gotext.GetDomain() })
	case "pglocs":
		guard(op, []string{}, func() {
			o := []string{}
			now := gotext.GetLocales()
			for i, l := range now {
				o = append(o, x.nameOf(l))
				now[i] = nil
			}
			if s := gotext.GetStorage(); len(o) == 0 && s != nil || len(o) > 0 && (s == nil || x.nameOf(s) != o[0]) {
				o = append(o, "STORAGE DIFFERS")
			}
			op["obs"] = o
		})
	default:
		return false
	}
	return true
}

func (x *i18n) pkgGet(hasD bool, d, c, i string, a []interface{}) string {
	switch {
	case hasD && c != "":
		return gotext.GetDC(d, i, ctx(c), a...)
	case hasD:
		return gotext.GetD(d, i, a...)
	case c != "":
		return gotext.GetC(i, ctx(c), a...)
	}
	return gotext.Get(i, a...)
}

func (x *i18n) pkgGetN(hasD bool, d, c, i, p string, n int, a []interface{}) string {
	switch {
	case hasD && c != "":
		return gotext.GetNDC(d, i, p, n, ctx(c), a...)
	case hasD:
		return gotext.GetND(d, i, p, n, a...)
	case c != "":
		return gotext.GetNC(i, p, n, ctx(c), a...)
	}
	return gotext.GetN(i, p, n, a...)
}

func pkgIs(hasD bool, d, c, i string, langs []string) bool {
	switch {
	case hasD && c != "":
		return gotext.IsTranslatedDC(d, i, ctx(c), langs...)
	case hasD:
		return gotext.IsTranslatedD(d, i, langs...)
	case c != "":
		return gotext.IsTranslatedC(i, ctx(c), langs...)
	}
	return gotext.IsTranslated(i, langs...)
}

func pkgIsN(hasD bool, d, c, i string, n int, langs []string) bool {
	switch {
	case hasD && c != "":
		return gotext.IsTranslatedNDC(d, i, n, ctx(c), langs...)
	case hasD:
		return gotext.IsTranslatedND(d, i, n, langs...)
	case c != "":
		return gotext.IsTranslatedNC(i, n, ctx(c), langs...)
	}
	return gotext.IsTranslatedN(i, n, langs...)
}

// execPure makes a call that has no object.
func execPure(op Op) bool {
	switch op["op"] {
	case "rule":
		execRule(op)
	case "simp":
		guard(op, "", func() { op["obs"] = gotext.SimplifiedLocale(str(op, "s")) })
	case "nfmt":
		guard(op, "", func() {
			m := map[string]interface{}{}
			for _, p := range op["params"].([]any) {
				q := p.([]any)
				a := q[1].(map[string]any)
				m[q[0].(string)] = a["v"]
				if rich(a) {
					m[q[0].(string)] = richVar(a)
				}
			}
			if str(op, "how") == "print" {
				op["obs"] = captured(func() { gotext.NPrintf(str(op, "s"), m) })
			} else {
				op["obs"] = gotext.Sprintf(str(op, "s"), m)
			}
		})
	default:
		return false
	}
	return true
}

// captured runs f with standard output redirected.
func captured(f func()) string {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		done <- string(b)
	}()
	defer func() { os.Stdout = old }()
	func() {
		defer w.Close()
		f()
	}()
	return <-done
}

// foreign is a translator of the application's own: what it is made of is nothing to the library.
type foreign struct{ gotext.Translator }
