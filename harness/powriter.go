package main

import (
	"fmt"
	"strings"
)

// A message is an entry of a PO or MO file.
type message struct {
	ctx, id, pl string
	forms       map[int]string
	refs        []string
}

// layout says how a PO text is written; every layout of the same messages means the same.
type layout struct {
	crlf, split, indent, comments, noblank, shuffle, rawtab, nofinal, tabsep bool
}

func (r R) layout() layout {
	c := func() bool { return r.chance(0.3) }
	return layout{c(), r.chance(0.5), c(), c(), c(), c(), c(), c(), c()}
}

func poEscape(r R, s string, l layout) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		switch c {
		case '\n':
			b.WriteString(`\n`)
		case '"':
			b.WriteString(`\"`)
		case '\\':
			b.WriteString(`\\`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			if l.rawtab {
				b.WriteString("\t")
			} else {
				b.WriteString(`\t`)
			}
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// field writes a keyword and its string, over one or more lines.
func (r R) field(kw, s string, l layout) []string {
	parts := []string{s}
	if l.split && r.chance(0.6) {
		parts = nil
		rs := []byte(s)
		if r.chance(0.5) {
			parts = append(parts, "")
		}
		for len(rs) > 0 {
			k := 1 + r.Intn(len(rs))
			parts = append(parts, string(rs[:k]))
			rs = rs[k:]
			if len(parts) > 6 {
				parts = append(parts, string(rs))
				break
			}
		}
		if len(parts) == 0 || r.chance(0.2) {
			parts = append(parts, "")
		}
	}
	sep := " "
	if l.tabsep {
		sep = pick(r, []string{"\t", "  ", " \t ", " \v"})
		if !strings.HasSuffix(kw, "]") && r.chance(0.2) {
			sep = ""
		}
	}
	out := []string{}
	for i, p := range parts {
		q := `"` + poEscape(r, p, l) + `"`
		if i == 0 {
			out = append(out, kw+sep+q)
		} else {
			out = append(out, q)
		}
		if l.comments && i+1 < len(parts) && r.chance(0.1) {
			out = append(out, "# in the middle")
		}
	}
	return out
}

var noise = []string{"# translator comment", "#. extracted comment", "#, fuzzy", "#, c-format", "#", "#| msgid \"previous\"",
	"#~ msgid \"obsolete\"", "#~ msgstr \"gone\"", "#~ msgctxt \"c\"", "#  indented", "#~| x", "", "   ", "\t"}

func (r R) poLines(ms []message, l layout) []string {
	out := []string{}
	for k, m := range ms {
		if k > 0 && (!l.noblank || r.chance(0.3)) {
			out = append(out, "")
		}
		if l.comments {
			for c := r.Intn(3); c > 0; c-- {
				out = append(out, pick(r, noise))
			}
		}
		for i := 0; i < len(m.refs); {
			k := 1
			if r.chance(0.5) {
				k = 1 + r.Intn(len(m.refs)-i)
			}
			out = append(out, "#:"+pick(r, []string{" ", "  ", ""})+strings.Join(m.refs[i:i+k], pick(r, []string{" ", "  "})))
			i += k
			if l.comments && r.chance(0.2) {
				out = append(out, pick(r, noise))
			}
		}
		if m.ctx != "" {
			out = append(out, r.field("msgctxt", ctx(m.ctx), l)...)
		}
		out = append(out, r.field("msgid", m.id, l)...)
		if m.pl != "" {
			out = append(out, r.field("msgid_plural", m.pl, l)...)
			idx := []int{}
			for i := 0; i < 20; i++ {
				if _, ok := m.forms[i]; ok {
					idx = append(idx, i)
				}
			}
			if l.shuffle {
				r.Shuffle(len(idx), func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
			}
			for _, i := range idx {
				out = append(out, r.field(fmt.Sprintf("msgstr[%d]", i), m.forms[i], l)...)
			}
		} else {
			out = append(out, r.field("msgstr", m.forms[0], l)...)
		}
	}
	if l.comments && r.chance(0.5) {
		out = append(out, pick(r, noise), "#~ msgid \"the end\"", "#~ msgstr \"of it\"")
	}
	return out
}

func (r R) poText(ms []message, l layout) string {
	lines := r.poLines(ms, l)
	if l.indent {
		for i := range lines {
			if r.chance(0.3) {
				lines[i] = pick(r, []string{" ", "\t", "  ", "\f", "\v "}) + lines[i] + pick(r, []string{"", " ", "\t", "\f", " \v"})
			}
		}
	}
	nl := "\n"
	if l.crlf {
		nl = "\r\n"
	}
	t := strings.Join(lines, nl)
	if !l.nofinal && t != "" {
		t += nl
	}
	return t
}

// headerMsg makes a header entry. With canon, the two headers that mean something are spelt canonically,
// else both are there (what a file without them says about one of another spelling is anybody's guess).
func (r R) headerMsg(rule string, canon bool) message {
	h := ""
	add := func(k, v string) { h += k + ": " + v + "\n" }
	if r.chance(0.7) {
		add("Project-Id-Version", pick(r, []string{"gotext 1.0", "", "é \"quoted\" \\ back", "a: b: c"}))
	}
	if r.chance(0.1) {
		add("Project-Id-Version", "again")
	}
	lk, pk := "Language", "Plural-Forms"
	if !canon {
		lk = pick(r, []string{"Language", "language", "LANGUAGE"})
		pk = pick(r, []string{"Plural-Forms", "plural-forms", "Plural-forms", "PLURAL-FORMS"})
	}
	if !canon || r.chance(0.8) {
		add(lk, pick(r, []string{"de", "en_US", "ar", "", " fr ", "pt_BR\t"}))
	}
	if r.chance(0.4) {
		add("X-Custom", "one")
		add("X-Custom", "two")
	}
	if r.chance(0.2) {
		add(pick(r, []string{"x-custom", " X-Blank", "X:Y", "Content-Type", "content-type", "é", ""}), pick(r, []string{"v", "", ":", "a;b=c"}))
	}
	if r.chance(0.2) { // any name, any value
		k := pick(r, []string{"X-", "", "Po", "X"}) + string(rune('A'+r.Intn(26))) + pick(r, []string{"", "ote", "-Id", "_x", " y", "\tz"})
		for j := 1 + r.Intn(2); j > 0; j-- {
			add(k, pick(r, words)+pick(r, []string{"", ": ", ":", ", ", "; ", " \t", "="})+pick(r, words))
		}
	}
	if r.chance(0.2) {
		h += pick(r, []string{"no colon here\n", "Language\n", "plural=n;\n"})
	}
	if r.chance(0.2) {
		h += "\n"
	}
	if !canon && rule == "none" {
		rule = ""
	}
	if rule != "none" {
		n := pick(r, []string{"nplurals=3; plural=", "nplurals=2;plural=", " nplurals=6;  plural =", "plural=", "nplurals=x; plural=", "nplurals = 2 ; plural = "})
		v := n + rule + pick(r, []string{";", ";", "", "; "})
		add(pk, v)
	}
	if r.chance(0.5) {
		add("Content-Type", "text/plain; charset=UTF-8")
		add("Content-Transfer-Encoding", "8bit")
	}
	if r.chance(0.1) {
		h = strings.TrimSuffix(h, "\n")
	}
	return message{forms: map[int]string{0: h}}
}

var refPool = []string{"main.go:1", "main.go:10", "main.go:9", "a/b.go:3", "a/b.go:200", "z.go", "dir/é.go:7", "a.go:12", "Main.go:2", "#1", "x:y:3"}

// messages makes the entries of one file.
func (r R) messages(v vocab, k int) []message {
	out := []message{}
	for i := 0; i < k; i++ {
		m := message{ctx: v.ctx(r), forms: map[int]string{}}
		m.id = v.id(r, m.ctx)
		if r.chance(0.45) {
			m.pl = pick(r, nonEmpty(v.pls))
			for f := r.Intn(5); f >= 0; f-- {
				if r.chance(0.9) {
					m.forms[f] = pick(r, v.trs)
					if r.chance(0.05) {
						m.forms[f] = pick(r, []string{m.id, m.pl})
					}
				}
			}
			if r.chance(0.05) { // more forms than one digit counts
				for f := 5 + r.Intn(4); f < 13; f++ {
					m.forms[f] = pick(r, v.trs)
				}
			}
		} else {
			m.forms[0] = pick(r, v.trs)
			if r.chance(0.05) {
				m.forms[0] = m.id
			}
		}
		if r.chance(0.4) {
			for c := r.Intn(3); c >= 0; c-- {
				m.refs = append(m.refs, pick(r, refPool))
			}
		}
		out = append(out, m)
	}
	return out
}
