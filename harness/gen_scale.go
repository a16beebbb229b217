package main

import (
	"encoding/binary"
	"fmt"
	"strings"
)

// Inputs that are long because something in them repeats: what they cost has to stay in proportion to them.
// They are too long for histories; those only hold whether it did.

func (r R) parts(from []string, most int) string {
	var b strings.Builder
	for k := r.Intn(most + 1); k > 0; k-- {
		b.WriteString(pick(r, from))
	}
	return b.String()
}

var ruleParts = []string{"n", "n", "?", ":", "(", ")", "%", "==", "!=", "<", ">=", "&&", "||", "0", "1", "n==1", "n%10==2", "0:", "n==1?", "?0:", "n==1?0:", " ", "x", "(n==1||", "||n==1)"}

func (r R) longRule(size int) string {
	a, z := "", ""
	for a == "" {
		a = r.parts(ruleParts, 3)
	}
	if r.chance(0.5) {
		z = pick(r, []string{")", ":0", ":0)", "||n==1)", "?0:1)"})
		if r.chance(0.3) {
			z = r.parts(ruleParts, 3)
		}
	}
	k := size / (len(a) + len(z))
	return r.parts(ruleParts, 2) + strings.Repeat(a, k) + pick(r, []string{"", "n==1", "0", "n", r.parts(ruleParts, 3)}) + strings.Repeat(z, k) + r.parts(ruleParts, 2)
}

var lineParts = []string{"msgid \"a\"", "msgid \"\"", "msgstr \"t\"", "msgstr[0] \"t\"", "msgstr[1] \"u\"", "msgid_plural \"as\"", "msgctxt \"c\"", "\"more\"", "\"a: b\\n\"", "\"\"", "#: r.go:1", "#: r.go:1 s.go:2",
	"# note", "#~ msgid \"x\"", "", "junk", "\"open", "msgstr[x] \"t\"", "msgstr[40000000] \"t\"", "msgid open", "\"Plural-Forms: nplurals=2; plural=n>1;\\n\"", "\"Language: xx\\n\""}

var textParts = []string{"a", "\\n", "\\t", "\\\\", "\\\"", "a: b\\n", "%s ", "é", ":", ";", "=", "plural=n>1;", "Plural-Forms: nplurals=2; plural=n!=1;\\n", "Language: xx\\n", "\\q", "\xff"}

func (r R) longText(size int) string {
	lines := func(most int) string {
		var b strings.Builder
		for k := r.Intn(most + 1); k > 0; k-- {
			b.WriteString(pick(r, lineParts))
			if r.chance(0.05) {
				b.WriteString("\r")
			}
			b.WriteString("\n")
		}
		return b.String()
	}
	long := func(p func() string) string {
		s := ""
		for s == "" {
			s = p()
		}
		return strings.Repeat(s, size/len(s))
	}
	switch r.Intn(4) {
	case 0: // a long string
		return lines(4) + pick(r, []string{"msgid \"", "msgstr \"", "msgctxt \"", "msgid_plural \"", "msgid \"\"\nmsgstr \"", "\"", "#: ", "# ", "msgstr["}) +
			long(func() string { return r.parts(textParts, 3) }) + pick(r, []string{"\"\n", "\"", "\n", ""}) + lines(4)
	case 1: // a long rule
		return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + r.longRule(size) + ";\\n\"\n" + lines(4)
	}
	return lines(3) + long(func() string { return lines(3) }) + lines(3)
}

// longMo has tables and strings that overlap.
func (r R) longMo(size int) []byte {
	b := make([]byte, size)
	fill := pick(r, []string{"x", "\x00", "\x04", "ab\x00", "c\x04x\x00y\x00", "a: b\n"})
	for i := range b {
		b[i] = fill[i%len(fill)]
	}
	var bo binary.ByteOrder = binary.LittleEndian
	if r.chance(0.5) {
		bo = binary.BigEndian
	}
	n := 1 + r.Intn(size/8)
	if r.chance(0.5) {
		n = size/8 - 8 - r.Intn(size/16)
	}
	for i, v := range []int{0x950412de, 0, n, 28, pick(r, []int{28, 28, 36, 32, 28 + 8*n}), pick(r, []int{0, n}), 28} {
		bo.PutUint32(b[4*i:], uint32(v))
	}
	base, step := r.Intn(size), pick(r, []int{0, 0, 1, 1, 2, 8})
	length, less := r.Intn(size), pick(r, []int{0, 1, 1, 8})
	if r.chance(0.5) {
		base, length = r.Intn(size/4), size/2
	}
	for i := 0; i < n && 28+8*i+8 <= size; i++ {
		l, s := length-i*less, base+i*step
		if l < 0 {
			l = 0
		}
		if s+l > size {
			if s = size - l; s < 0 {
				s, l = 0, size
			}
		}
		bo.PutUint32(b[28+8*i:], uint32(l))
		bo.PutUint32(b[32+8*i:], uint32(s))
	}
	return b
}

func init() {
	plain("C07s", func(r R, id string) trace {
		t := trace{ID: id}
		w := newWorld()
		for k := 0; k < 6; k++ {
			size := pick(r, []int{5000, 20000, 60000, 120000})
			op := Op{"op": "cost"}
			switch r.Intn(4) {
			case 0:
				op["what"], op["img"] = "rule", r.longRule(size)
			case 1:
				op["what"], op["img"] = "mo", string(r.longMo(size))
			default:
				op["what"], op["img"] = "text", r.longText(size)
			}
			in := op["img"].(string)
			if op["what"] != "mo" {
				op["note"] = fmt.Sprintf("%d bytes: %.60q ... %.30q", len(in), in, in[len(in)-len(in)%30:])
			}
			w.exec(op)
			op["img"] = ""
			t.Ops = append(t.Ops, op)
		}
		return t
	})
}
