package main

import (
	"fmt"
	"math/rand"
	"strings"
)

type R struct{ *rand.Rand }

func newR(seed int64) R           { return R{rand.New(rand.NewSource(seed))} }
func pick[T any](r R, l []T) T    { return l[r.Intn(len(l))] }
func (r R) chance(p float64) bool { return r.Float64() < p }

// Texts. Every percent sign in them is followed by one of s d v z %, a blank and s or d, or nothing,
// which is as much of fmt's syntax as spec/Fmt.tla knows.
var words = []string{"a", "b", "apple", "Apple", "one", "two", "file", "files", "x", "y", "z", "key", "KEY", "foo", "bar"}
var odd = []string{
	" lead", "trail ", "two  blanks", "tab\there", "line\nbreak", "\nleading newline", "trailing newline\n",
	"two\n\nnewlines\n", "\n", "\n\n", "\n\n\n", "\n\nafter two", "before two\n\n", "\f\v", "quote\"inside", "\"quoted\"", "\"\"", "\"", "back\\slash", "\\", "\\\\", "\\n", "\\\"",
	"end\\", "é", "e\u0301", "日本語", "😀 smile", "ß", "SS", "İ", "ı", "\u00a0nbsp\u00a0", "\u2028", "\ufeffbom",
	"carriage\rreturn", "crlf\r\nline", "%s", "%d files", "100%", "100%% sure", "% d", "%s and %s", "%d %s", "%v", "%z",
	"#hash", "#: ref.go:1", "msgid", "msgid \"x\"", "msgstr[0]", "a:b", "a=b;c", "[0]", "]", "{}", "null", "0", "-1",
	"ctx", "default", "en", "Plural-Forms: x", "<b>html</b>", "a/b", "../x", "a.b", "~", "|", "a|b", "$1", "$a", "`tick`", "'", "''",
	"caf\xe9", "\xff\xfe", "\xe9\\\xe8\"\xa0", "\xc3", "\x80\n",
	"\x01\x02", "\x7f", "\x0b\x0c", "\b",
}

// Texts that a careless comparison would take for one.
var twins = [][]string{{"caf\xc3\xa9", "cafe\xcc\x81"}, {"caf\xe9", "caf\xc3\xa9"}, {"caf\xe9", "caf\xe8"}, {"caf\xe9", "caf\xef\xbf\xbd"}, {"a\r\nb", "a\nb"}, {"a\n", "a"},
	{"a\tb", "a b"}, {"a  b", "a b"}, {"a\\nb", "a\nb"}, {"ß", "ss"}, {"İ", "i"}, {"ı", "I"}, {"K", "K"}, {"\ufeffa", "a"}, {"a\u00a0b", "a b"}, {"a\u200bb", "ab"},
	{"a\x00", "a"}, {"a\x00b", "a\x00c"}, {"0", "00"}, {"1", "1.0"}, {"%s", "%d"}, {"a%%b", "a%b"}, {"'a'", "a"}, {"\"a\"", "a"}, {"<a>", "<A>"}, {"a.", "a"}, {"a…", "a..."}, {"&amp;", "&"},
	{strings.Repeat("x", 64) + "a", strings.Repeat("x", 64) + "b"}, {strings.Repeat("x", 255) + "a", strings.Repeat("x", 255) + "b"}, {strings.Repeat("x", 1024) + "a", strings.Repeat("x", 1024)},
	{"a" + strings.Repeat("x", 40), "b" + strings.Repeat("x", 40)}, {"ab", "ba"}, {"Aa", "BB"}, {"a b c", "a c b"}}

func (r R) long() string {
	n := pick(r, []int{63, 64, 127, 128, 255, 256, 257, 511, 1023, 1024, 2048, 4095, 4096, 4097, 9000})
	if r.chance(0.03) {
		n = pick(r, []int{65534, 65536, 70000})
	}
	if r.chance(0.12) { // the same throughout, and something that is written with more than one byte
		piece := pick(r, []string{"\"", "\\", "\t", "é", "\n", "日", "a\"b", "a b ", "ab\n", "x\\y", "\xe9", "\r"})
		return strings.Repeat("x", r.Intn(4)) + strings.Repeat(piece, r.Intn(600)) + pick(r, words)
	}
	return pick(r, []string{"L", "é", "ab"}) + strings.Repeat(pick(r, []string{"x", "y"}), n) + pick(r, words)
}

// text makes a translation or message text.
func (r R) text() string {
	switch k := r.Intn(100); {
	case k < 45:
		return pick(r, words) + fmt.Sprint(r.Intn(50))
	case k < 75:
		return pick(r, odd)
	case k < 90:
		return pick(r, odd) + pick(r, words) + pick(r, []string{"", "", "\n", " ", "\"", "é", "\\"}) + pick(r, odd)
	case k < 96:
		return r.long()
	default:
		return pick(r, words) + " " + pick(r, odd) + " " + r.long()
	}
}

// fixPct keeps the promise about percent signs made above for composed texts.
func fixPct(s string) string {
	var b strings.Builder
	rs := []byte(s)
	for i := 0; i < len(rs); i++ {
		b.WriteByte(rs[i])
		if rs[i] != '%' {
			continue
		}
		if i+1 == len(rs) {
			continue
		}
		if strings.IndexByte("sdvz%", rs[i+1]) >= 0 {
			i++
			b.WriteByte(rs[i])
			continue
		}
		if rs[i+1] == ' ' && i+2 < len(rs) && (rs[i+2] == 's' || rs[i+2] == 'd') {
			i += 2
			b.WriteByte(rs[i-1])
			b.WriteByte(rs[i])
			continue
		}
		b.WriteByte('%')
	}
	return b.String()
}

func (r R) textP() string { return fixPct(r.text()) }

// A vocabulary is the ids, contexts and translations one trace plays with: few enough to collide.
type vocab struct {
	ids, ctxs, pls, trs []string
}

func (r R) vocab(nid, nctx, ntr int) vocab {
	v := vocab{}
	sep := pick(r, []string{"\x04", "|", "/", ":", ".", " ", "\n", "_", "\\", "\"", "x"})
	base := pick(r, words)
	// keys that a careless key encoding would confuse
	v.ids = append(v.ids, base, base+sep+"i", "i", sep+"i")
	v.ctxs = append(v.ctxs, base, "c", base+sep+base)
	v.ids = append(v.ids, base+sep+base)
	if r.chance(0.5) {
		v.ids = append(v.ids, strings.ToUpper(base), base+" ", " "+base)
		v.ctxs = append(v.ctxs, strings.ToUpper(base), base+" ")
	}
	for len(v.ids) < nid+4 {
		v.ids = append(v.ids, r.textP())
	}
	for len(v.ctxs) < nctx+2 {
		v.ctxs = append(v.ctxs, r.textP())
	}
	r.Shuffle(len(v.ids), func(i, j int) { v.ids[i], v.ids[j] = v.ids[j], v.ids[i] })
	r.Shuffle(len(v.ctxs), func(i, j int) { v.ctxs[i], v.ctxs[j] = v.ctxs[j], v.ctxs[i] })
	if len(v.ids) > nid {
		v.ids = v.ids[:nid]
	}
	if len(v.ctxs) > nctx {
		v.ctxs = v.ctxs[:nctx]
	}
	v.ids = nonEmpty(v.ids)
	v.ctxs = nonEmpty(v.ctxs)
	if r.chance(0.35) { // in the place of others, so that there are not more
		t := pick(r, twins)
		v.ids = append(t[:2:2], v.ids[min(2, len(v.ids)):]...)
		if r.chance(0.5) && len(v.ctxs) > 1 {
			t = pick(r, twins)
			v.ctxs = append(t[:2:2], v.ctxs[2:]...)
		}
	}
	if r.chance(0.25) {
		v.ctxs = append(v.ctxs, emptyCtx)
	}
	for i := 0; i < ntr; i++ {
		v.trs = append(v.trs, r.textP())
	}
	v.trs = append(v.trs, "")
	if r.chance(0.4) { // a translation that is the id, a context or a number
		v.trs = append(v.trs, pick(r, v.ids), pick(r, []string{"0", "1", ctx(pick(r, append([]string{"c"}, v.ctxs...)))}))
	}
	for i := 0; i < 3; i++ {
		v.pls = append(v.pls, r.textP()+"s")
	}
	v.pls = append(v.pls, v.ids[0], "")
	if r.chance(0.2) {
		v.trs = append(v.trs, v.pls[0])
	}
	for i := range v.pls {
		v.pls[i] = fixPct(v.pls[i])
	}
	for _, l := range [][]string{v.ids, v.ctxs, v.trs} {
		for i := range l {
			l[i] = fixPct(l[i])
		}
	}
	return v
}

func nonEmpty(l []string) []string {
	o := l[:0:0]
	for _, s := range l {
		if s != "" {
			o = append(o, s)
		}
	}
	return o
}

// id picks an id; with a context, it may be empty
func (v vocab) id(r R, ctx string) string {
	if ctx != "" && r.chance(0.06) {
		return ""
	}
	return pick(r, v.ids)
}

func (v vocab) ctx(r R) string {
	if r.chance(0.5) {
		return ""
	}
	return pick(r, v.ctxs)
}

var edges = []uint32{0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 14, 19, 20, 21, 22, 99, 100, 101, 102, 103, 111, 112, 199, 200, 255, 256, 999, 1000, 1001,
	10000, 65535, 65536, 65537, 99999, 100000, 999999, 1000000, 1000001, 16777216, 2147483646, 2147483647, 2147483648, 2147483649,
	4294967291, 4294967294, 4294967295}

func (r R) n() uint32 {
	switch k := r.Intn(10); {
	case k < 4:
		return uint32(r.Intn(6))
	case k < 7:
		return pick(r, edges)
	case k < 9:
		return uint32(r.Intn(300))
	default:
		return r.Uint32()
	}
}

// anyN is mostly an n that plural rules are defined for, and sometimes another integer.
func (r R) anyN() []int {
	if r.chance(0.07) {
		return wide(pick(r, []int{-1, -1, -2, 1 << 32, 1<<32 + 1, 1<<32 + 1, 1<<32 + 2, 1<<33 + 1, 1 - 1<<32, -1 << 31, 1 - 1<<31, 1<<40 + 1, 1<<16 - 1<<32}))
	}
	return limbs(r.n())
}

func (r R) args() []any {
	out := []any{}
	for k := r.Intn(4); k > 0; k-- {
		if r.chance(0.5) {
			out = append(out, map[string]any{"t": "i", "v": r.Intn(2000) - 500})
		} else if r.chance(0.2) {
			out = append(out, map[string]any{"t": "l", "v": pick(r, []string{"looked", "", "%d", "a b"})})
		} else {
			out = append(out, map[string]any{"t": "s", "v": pick(r, []string{"arg", "", "%s", "a b", "é", "%", "x\ny", "\"q\""})})
		}
	}
	return out
}

// plural rules of real languages and some with every syntax
var rules = []string{
	"0", "n != 1", "(n != 1)", "n>1", "(n > 1)", "n == 1 ? 0 : 1",
	"n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2",
	"n==1 ? 0 : n==2 ? 1 : 2",
	"n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4",
	"n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2",
	"n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
	"(n % 10 == 1 && n % 100 != 11) ? 0 : ((n % 10 >= 2 && n % 10 <= 4 && (n % 100 < 12 || n % 100 > 14)) ? 1 : 2)",
	"n==1 || n%10==1 ? 0 : 1", "(n==1)||(n==2)?0:(n>5)", "((n==1))", "1 == n ? 0 : 3 <= n%5 ? 2 : 1",
	"n<5?n<3?0:1:2", "n<5?(n<3?n==0?5:4:1):2", "n%1000000==0 && n!=0 ? 1 : 2", "n > 4294967294 ? 1 : 0", "3", "n==1 ? 10 : n==2 ? 11 : n==0 ? 12 : 2", "12", " 1 ", "(0)",
	"\tn == 1 ?\t0 : 1 ", "n>=2147483648 ? 1 : 0", "n % 2147483648 == 1 ? 1 : 0", "n%3",
}
var badRules = []string{"", "n ==", "n == 1 ?", "n == 1 ? 0", "n == 1 ? 0 :", "(n == 1", "n == 1)", "n == x", "n + 1", "n %", "n % 0 == 1 ? 0 : 1",
	"n == 1 ? 0 : n == 2 ? 1 : ", "n == 1 ? 0 : (1", "n = 1", "n == 4294967296", "n ! 1", "&& n == 1", "n == 1 || ", "EXPRESSION", "?:", "()", "n == 1 ? 0 : 1 :2", "n==1 && && n==2",
	"99999999999 == n", "n%4294967296 == 1", "n===1 ? 0 : 1", "n==1 ? x : 1"}

func init() { // n%3 as a truth value is outside the grammar
	rules = rules[:len(rules)-1]
}
