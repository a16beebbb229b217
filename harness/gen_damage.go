package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/leonelquinteros/gotext"
)

// Histories about damaged input.

var junk = []string{"garbage", "msgfoo \"x\"", "msgidx \"x\"", "msgid_pluralx \"x\"", "msgstrx \"x\"", "?", "\"unterminated", "\"", "msg", "[0] \"x\"", "=====", "<<<<<<< HEAD",
	">>>>>>>", "msgstr0 \"x\"", "msgctxts \"c\"", "\\\"x\"", "'single'", "x\"y\"", "ms gid \"x\"", "MSGID \"x\"", "domain \"d\"", "\x00\x01", "\xff\xfe", "é", "{\"json\": 1}", "\"a\" b", "// msgid \"x\"", "msgid2 \"x\"", "msgids"}

// entryDamaged writes an entry that is broken somewhere.
func (r R) entryDamaged(m message) []string {
	q := func(s string) string { return `"` + s + `"` }
	bad := func(s string) string {
		return pick(r, []string{`"` + s, s + `"`, s, `"` + s + `\"`, `"` + s + `" x"`, `"` + s + `\q"`, `"a"b"`, ``, `'` + s + `'`, `"\`, `"` + s + "`"})
	}
	l := []string{}
	where := r.Intn(5)
	if m.ctx != "" {
		if where == 0 {
			l = append(l, "msgctxt "+bad(ctx(m.ctx)))
			if r.chance(0.3) {
				l = append(l, q("more"))
			}
		} else {
			l = append(l, "msgctxt "+q(ctx(m.ctx)))
		}
	} else if where == 0 {
		where = 1
	}
	if where == 1 {
		l = append(l, "msgid "+bad(m.id))
		if r.chance(0.3) {
			l = append(l, q("more"))
		}
	} else {
		l = append(l, "msgid "+q(m.id))
	}
	if m.pl != "" || where == 3 {
		if where == 2 {
			l = append(l, "msgid_plural "+bad(m.pl))
		} else {
			l = append(l, "msgid_plural "+q(m.pl+"p"))
		}
		if where >= 3 {
			ix := pick(r, []string{"[x]", "[", "[]", "[-1]", "[99999999999999999999]", "[0", "[1.5]", "[ ]", "[0x1]", "]", "[[0]", "[+]"})
			k := r.Intn(3)
			for i := 0; i < 3; i++ {
				if i == k {
					l = append(l, "msgstr"+ix+" "+q("bad index"))
				} else {
					l = append(l, fmt.Sprintf("msgstr[%d] %s", i, q("good index")))
				}
				if r.chance(0.3) {
					l = append(l, q("continued"))
				}
			}
		} else {
			l = append(l, "msgstr[0] "+q("t0"), "msgstr[1] "+q("t1"))
		}
	} else if where >= 2 {
		l = append(l, "msgstr "+bad("t"))
	} else {
		l = append(l, "msgstr "+q("t of the damaged one"))
	}
	if r.chance(0.2) {
		k := r.Intn(len(l) + 1)
		l = append(l[:k], append([]string{pick(r, junk)}, l[k:]...)...)
	}
	if r.chance(0.3) && where >= 2 { // the last line is missing
		l = l[:len(l)-1]
	}
	return l
}

// damagedPo is a history about PO texts with damage between and in entries; the other entries are looked at.
func damagedPo(r R, id string) trace {
	g := &gen{r: r, w: newWorld(), kind: map[string]string{}, read: map[string]bool{}, pub: map[string]bool{}, snaps: map[string]bool{}, canon: true}
	defer g.w.close()
	g.m = mix{bad: 0.1, args: 0}
	g.v = r.vocab(4, 2, 5)
	// simple texts in damaged entries, so that what is damaged is clear
	clean := func(s string) string {
		return strings.Map(func(c rune) rune {
			if c == '"' || c == '\\' || c < ' ' {
				return '_'
			}
			return c
		}, s)
	}
	for _, l := range [][]string{g.v.ids, g.v.ctxs} {
		for i := range l {
			l[i] = clean(l[i])
		}
	}
	g.do(Op{"op": "new", "o": "p", "kind": "po"})
	good := map[[2]string]bool{}
	for round := 1 + r.Intn(2); round > 0; round-- {
		type slot struct {
			m   message
			bad bool
		}
		slots := []slot{}
		used := map[[2]string]bool{}
		for _, c := range append([]string{""}, g.v.ctxs...) {
			for _, i := range g.v.ids {
				k := [2]string{c, i}
				if used[k] || r.chance(0.2) {
					continue
				}
				used[k] = true
				m := message{ctx: c, id: i, forms: map[int]string{0: pick(r, g.v.trs)}}
				if r.chance(0.4) {
					m.pl = i + "s"
					m.forms[1], m.forms[2] = pick(r, g.v.trs), pick(r, g.v.trs)
				}
				if r.chance(0.3) {
					m.refs = []string{pick(r, refPool)}
				}
				bad := r.chance(0.35)
				slots = append(slots, slot{m, bad})
				good[k] = !bad && (good[k] || true)
			}
		}
		r.Shuffle(len(slots), func(i, j int) { slots[i], slots[j] = slots[j], slots[i] })
		lay := r.layout()
		lines := []string{}
		if r.chance(0.7) {
			lines = append(r.poLines([]message{r.headerMsg(g.pickRule(), true)}, lay), "")
		}
		for _, s := range slots {
			for r.chance(0.3) {
				lines = append(lines, pick(r, junk))
				if r.chance(0.3) {
					lines = append(lines, "")
				}
			}
			if s.bad {
				lines = append(lines, r.entryDamaged(s.m)...)
			} else {
				lines = append(lines, r.poLines([]message{s.m}, lay)...)
			}
			if r.chance(0.7) {
				lines = append(lines, "")
			}
		}
		for r.chance(0.3) {
			lines = append(lines, pick(r, junk))
		}
		nl := "\n"
		if lay.crlf {
			nl = "\r\n"
		}
		g.do(Op{"op": "parse", "o": "p", "via": "", "text": lex(strings.Join(lines, nl) + nl)})
		keys := []any{}
		for _, c := range append([]string{""}, g.v.ctxs...) {
			for _, i := range g.v.ids {
				k := [2]string{c, i}
				if !good[k] {
					continue
				}
				keys = append(keys, []string{c, i})
				op := Op{"op": pick(r, []string{"get", "getn", "istr", "istrn"}), "o": "p", "via": g.via(), "c": c, "i": i}
				g.lookupPlain(op)
			}
		}
		g.do(Op{"op": "ents", "o": "p", "keys": keys})
		g.do(Op{"op": "headers", "o": "p", "via": "dom"})
	}
	g.do(Op{"op": "chaos", "o": "p"})
	return trace{id, g.ops}
}

func (g *gen) lookupPlain(op Op) {
	switch op["op"] {
	case "getn":
		op["p"] = "plural"
		fallthrough
	case "istrn":
		op["n"] = limbs(g.r.n())
	}
	g.do(op)
}

// garbage: random bytes, spliced and cut valid files, into fresh objects, which must survive anything.
func garbage(r R, id string) trace {
	g := &gen{r: r, w: newWorld(), kind: map[string]string{}, read: map[string]bool{}, pub: map[string]bool{}, snaps: map[string]bool{}}
	defer g.w.close()
	g.m = mix{bad: 0.3}
	g.v = r.vocab(4, 2, 5)
	bytesOf := func() []byte {
		switch r.Intn(4) {
		case 0:
			b := make([]byte, r.Intn(300))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			return b
		case 1:
			var b strings.Builder
			for k := r.Intn(60); k > 0; k-- {
				b.WriteString(pick(r, []string{"msgid", "msgstr", "msgctxt", "msgid_plural", "[", "]", "0", "1", "-", "9", "\"", "\"", "\"", " ", "\n", "\n", "\n", "\\", "x", "#", "#:", "#~", ":", "\r\n", "\x00", "\x04",
					"Plural-Forms: nplurals=2; plural=", "n", "==", "?", "%", "(", ")", ";", "\"\"", "\xff", "msgid \"\"\nmsgstr \"\"\n", "Language: x\\n"}))
			}
			return []byte(b.String())
		case 2:
			return []byte(r.poText(g.file(), r.layout()))
		default:
			return r.moImage(forMo(g.file()))
		}
	}
	cut := func(b []byte) []byte {
		if len(b) == 0 {
			return b
		}
		switch r.Intn(4) {
		case 0:
			return b[:r.Intn(len(b))]
		case 1:
			return b[r.Intn(len(b)):]
		case 2:
			c := append([]byte{}, b...)
			for k := 1 + r.Intn(4); k > 0; k-- {
				c[r.Intn(len(c))] = byte(r.Intn(256))
			}
			return c
		}
		i, j := r.Intn(len(b)), r.Intn(len(b))
		return append(append([]byte{}, b[:i]...), b[j:]...)
	}
	for k := 0; k < 6; k++ {
		o := fmt.Sprint("o", k)
		kind := pick(r, []string{"po", "po", "mo"})
		g.do(Op{"op": "new", "o": o, "kind": kind})
		g.do(Op{"op": "chaos", "o": o}) // nothing is claimed of it from here, but that it lives
		for c := 1 + r.Intn(2); c > 0; c-- {
			b := bytesOf()
			if r.chance(0.7) {
				b = cut(b)
			}
			if kind == "po" {
				g.do(Op{"op": "parse", "o": o, "via": "", "text": []string{string(b)}})
			} else {
				g.do(Op{"op": "parsemo", "o": o, "via": "", "img": string(b)})
			}
			g.do(Op{"op": "chaos", "o": o})
		}
		if kind == "mo" {
			g.do(Op{"op": "cost", "what": "mo", "img": string(cut(r.moImage(forMo(g.file()))))})
		}
		g.do(Op{"op": "parsefile", "o": o, "how": "missing"})
	}
	return trace{id, g.ops}
}

// moFields overwrites one number of an image.
func (r R) moField(b []byte) []byte {
	c := append([]byte{}, b...)
	if len(c) < 28 {
		return c
	}
	var bo binary.ByteOrder = binary.LittleEndian
	if c[0] == 0x95 {
		bo = binary.BigEndian
	}
	n := int(bo.Uint32(c[8:]))
	if n > len(c) { // it has been changed before
		n = 3
	}
	fields := []int{0, 4, 8, 12, 16, 20, 24}
	for t := 12; t <= 16; t += 4 {
		for k := 0; k < 2*n; k++ {
			fields = append(fields, int(bo.Uint32(c[t:]))+4*k)
		}
	}
	f := pick(r, fields)
	if r.chance(0.3) {
		f = pick(r, fields[:7])
	}
	if f+4 > len(c) {
		return c
	}
	old := bo.Uint32(c[f:])
	l := uint32(len(c))
	v := pick(r, []uint32{0, 1, old + 1, old - 1, l, l - 1, l + 1, l - old, l / 8, l/8 + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, old + 0x10000, old << 8, old ^ 4, 1 << 29, 1<<29 + old, 28, 27, 2, 0x10000, 0x20000, 0x10001, 0x01000000, r.Uint32(), uint32(0) - old})
	bo.PutUint32(c[f:], v)
	return c
}

// damagedMo loads an image and then damaged versions of others.
func damagedMo(r R, id string) trace {
	g := &gen{r: r, w: newWorld(), kind: map[string]string{}, read: map[string]bool{}, pub: map[string]bool{}, snaps: map[string]bool{}, canon: true}
	defer g.w.close()
	g.m = mix{bad: 0.1}
	g.v = r.vocab(4, 2, 5)
	for i := range g.v.trs {
		if len(g.v.trs[i]) > 300 {
			g.v.trs[i] = g.v.trs[i][:40]
		}
	}
	small := func() []byte {
		ms := []message{}
		if r.chance(0.5) {
			ms = append(ms, r.headerMsg(g.pickRule(), true))
		}
		return r.moImage(forMo(append(ms, r.messages(g.v, 1+r.Intn(4))...)))
	}
	look := func() {
		for _, wc := range []bool{false, true} {
			g.nsnap++
			g.do(Op{"op": "snap", "o": "m", "via": "", "name": fmt.Sprint("s", g.nsnap), "wc": wc})
		}
		g.do(Op{"op": "headers", "o": "m", "via": pick(r, []string{"", "dom"})})
		for k := 0; k < 3; k++ {
			op := g.key(Op{"op": pick(r, []string{"get", "getn", "istr"}), "o": "m", "via": g.via()})
			g.lookupPlain(op)
		}
	}
	for k := 0; k < 12; k++ {
		g.do(Op{"op": "new", "o": "m", "kind": pick(r, []string{"mo", "mofs"})})
		if r.chance(0.7) {
			g.do(Op{"op": "parsemo", "o": "m", "via": "", "img": img(small())})
		}
		b := small()
		for c := 1 + r.Intn(2); c > 0; c-- {
			if r.chance(0.3) {
				b = b[:r.Intn(len(b)+1)]
			} else {
				b = r.moField(b)
			}
		}
		op := Op{"op": "parsemo", "o": "m", "via": "", "img": img(b)}
		if r.chance(0.2) {
			op["how"] = "file"
		}
		g.do(op)
		g.do(Op{"op": "cost", "what": "mo", "img": img(b)})
		look()
		g.do(Op{"op": "chaos", "o": "m"})
	}
	return trace{id, g.ops}
}

// damagedBin decodes damaged binary encodings: the object stays as it was.
func damagedBin(r R, id string) trace {
	g := &gen{r: r, w: newWorld(), kind: map[string]string{}, read: map[string]bool{}, pub: map[string]bool{}, snaps: map[string]bool{}, canon: true}
	defer g.w.close()
	g.m = mix{bad: 0.1, ids: 4, ctxs: 2}
	g.v = r.vocab(4, 2, 5)
	hurt := func(b []byte) []byte {
		c := append([]byte{}, b...)
		switch r.Intn(6) {
		case 0, 1:
			return c[:r.Intn(len(c))]
		case 2:
			return []byte(pick(r, []string{"", "x", "\x00", "\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "{}", "msgid \"\""}))
		case 3:
			i := r.Intn(len(c))
			return append(append(append([]byte{}, c[:i]...), byte(r.Intn(256))), c[i:]...)
		case 4:
			i := r.Intn(len(c))
			return append(c[:i], c[i+1:]...)
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			c[r.Intn(len(c))] ^= 1 << r.Intn(8)
		}
		return c
	}
	// two million where any of its numbers can be: recorded is what costs too much, and one that does not
	costly := func(what string, b []byte) {
		keep := r.Intn(len(b))
		for i := 0; i+4 < len(b) && i < 1500; i++ {
			c := append([]byte{}, b...)
			copy(c[i:], "\xfd\x20\x00\x00")
			op := Op{"op": "cost", "what": what, "img": string(c)}
			g.w.exec(op)
			if op["obs"] != true || i == keep {
				op["at"], op["img"] = i, ""
				g.ops = append(g.ops, op)
			}
		}
	}
	g.objs = []string{"o0", "o1"}
	for _, o := range g.objs {
		g.kind[o] = pick(r, []string{"po", "mo", "dom"})
		g.do(Op{"op": "new", "o": o, "kind": g.kind[o]})
	}
	x := g.w.files()
	x.write([]string{"OS", "R", "xx", "d.po"}, nil)
	g.do(Op{"op": "write", "path": []string{"OS", "R", "xx", "d.po"}, "text": lex(r.poText(g.file(), layout{}))})
	g.do(Op{"op": "lnew", "l": "l", "how": "os", "root": "OS", "path": "/R", "lang": "xx"})
	g.do(Op{"op": "ladd", "l": "l", "d": "d", "as": "x"})
	g.m.mut = W{"set": 3, "setn": 3, "parse": 4, "setrefs": 1, "drop": 1}
	for k := 0; k < 10; k++ {
		g.change()
		o := g.obj()
		other := g.obj()
		b, err := g.w.objs[other].look("").MarshalBinary()
		if err != nil {
			panic(err)
		}
		if k == 0 {
			costly("bin", b)
		}
		for c := 0; c < 3; c++ {
			d := string(hurt(b))
			op := g.do(Op{"op": "badbin", "o": o, "via": g.via(), "data": d})
			delete(op, "data")
			if r.chance(0.1) {
				op = g.do(Op{"op": "cost", "what": "bin", "img": d})
				op["img"] = ""
			}
		}
		lb, err := x.locs["l"].MarshalBinary()
		if err != nil {
			panic(err)
		}
		if k == 0 {
			costly("lbin", lb)
		}
		ldata := string(hurt(lb))
		if r.chance(0.6) {
			ldata = otherLocale(r, func() string { return string(hurt(b)) })
		}
		op := g.do(Op{"op": "lbadbin", "l": "l", "data": ldata})
		delete(op, "data")
		if r.chance(0.3) { // from where it was told to read, not from where the damaged encoding tells
			g.do(Op{"op": "ladd", "l": "l", "d": "d", "as": "x"})
		}
		g.do(Op{"op": "ldoms", "l": "l"})
		g.do(Op{"op": "llang", "l": "l"})
		g.do(Op{"op": "ldom", "l": "l"})
		for j := 0; j < 2; j++ {
			q := g.key(Op{"op": pick(r, []string{"get", "istr"}), "l": "l", "d": "d"})
			g.do(q)
		}
		for j := 0; j < 4; j++ {
			q := g.key(Op{"op": pick(r, []string{"get", "getn", "istr", "istrn"}), "o": o, "via": g.via()})
			g.lookupPlain(q)
		}
		for _, wc := range []bool{false, true} {
			g.nsnap++
			g.do(Op{"op": "snap", "o": o, "via": "", "name": fmt.Sprint("s", g.nsnap), "wc": wc})
		}
		if g.kind[o] != "dom" {
			g.do(Op{"op": "parsefile", "o": o, "how": pick(r, []string{"missing", "dir", "below", "dangling", "empty"})})
			g.do(Op{"op": "headers", "o": o, "via": g.via()})
			for _, wc := range []bool{false, true} {
				g.nsnap++
				g.do(Op{"op": "snap", "o": o, "via": "", "name": fmt.Sprint("s", g.nsnap), "wc": wc})
			}
		}
	}
	return trace{id, g.ops}
}

// spoiltPo is a translator whose encoding is damaged.
type spoiltPo struct {
	*gotext.Po
	data string
}

func (s *spoiltPo) MarshalBinary() ([]byte, error) { return []byte(s.data), nil }

// otherLocale encodes a locale of another directory and language, some of whose domains are damaged
// while what surrounds them is not.
func otherLocale(r R, hurt func() string) string {
	l := gotext.NewLocale("/Q", "yy")
	n := 1 + r.Intn(3)
	bad := r.Intn(n)
	for k := 0; k < n; k++ {
		p := gotext.NewPo()
		p.Parse([]byte("msgid \"a\"\nmsgstr \"A\"\n"))
		dom := pick(r, []string{"d", "e", "q"}) + strings.Repeat("q", k)
		if k == bad || r.chance(0.2) {
			l.AddTranslator(dom, &spoiltPo{p, hurt()})
		} else {
			l.AddTranslator(dom, p)
		}
	}
	if r.chance(0.7) {
		l.SetDomain(pick(r, []string{"q", "d", "e"}))
	}
	b, err := l.MarshalBinary()
	if err != nil {
		panic(err)
	}
	return string(b)
}

// damagedRules compiles nonsense: it may not crash, hang or leave goroutines behind.
func damagedRules(r R, id string) trace {
	t := trace{ID: id}
	rs := []string{}
	for k := 0; k < 25; k++ {
		var b strings.Builder
		for c := r.Intn(12); c > 0; c-- {
			b.WriteString(pick(r, []string{"n", "n", "?", ":", "(", ")", "(", ")", "%", "==", "!=", "<", ">=", "&&", "||", "0", "1", "10", "4294967296", " ", "x", "\t", "!", "=", "&", "é", "\x00", "-", "%%", "nn"}))
		}
		s := b.String()
		if r.chance(0.05) {
			s = strings.Repeat(pick(r, []string{"(", ")", "n==1?0:", "n==1?", "n%", "(n==1)||", "n==1&&(", "1", "?", "n"}), 300)
		}
		rs = append(rs, s)
		op := Op{"op": "rule", "s": s, "ns": nsFor(r, 2)}
		if len(s) > 200 {
			rs[len(rs)-1] = s
			continue // too deep for the specification: only the leak is looked at
		}
		execRule(op)
		t.Ops = append(t.Ops, op)
	}
	w := newWorld()
	op := Op{"op": "leak", "rules": rs}
	w.exec(op)
	t.Ops = append(t.Ops, op)
	return t
}

func init() {
	plain("C07p", damagedPo)
	plain("C07g", garbage)
	plain("C07m", damagedMo)
	plain("C07b", damagedBin)
	plain("C07r", damagedRules)
}
