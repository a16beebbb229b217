package main

import (
	"bytes"
	"encoding/binary"
	"strings"
)

// moImage writes the messages as a GNU MO image, in one of the many valid layouts.
func (r R) moImage(ms []message) []byte {
	var bo binary.ByteOrder = binary.LittleEndian
	if r.chance(0.5) {
		bo = binary.BigEndian
	}
	n := len(ms)
	ids, trs := make([]string, n), make([]string, n)
	for k, m := range ms {
		id := m.id
		if m.ctx != "" {
			id = ctx(m.ctx) + "\x04" + id
		}
		tr := m.forms[0]
		if m.pl != "" {
			id += "\x00" + m.pl
			top := 0
			for i := range m.forms {
				if i > top {
					top = i
				}
			}
			l := []string{}
			for i := 0; i <= top; i++ {
				l = append(l, m.forms[i])
			}
			tr = strings.Join(l, "\x00")
		}
		ids[k], trs[k] = id, tr
	}
	// areas: the two tables, the hash table and the strings, in any order behind the header
	hash := 0
	if r.chance(0.5) {
		hash = 4 * (1 + r.Intn(2*n+3))
	}
	type area struct {
		kind string
		idx  int
	}
	areas := []area{{"ids", 0}, {"trs", 0}}
	if hash > 0 {
		areas = append(areas, area{"hash", 0})
	}
	all := append(append([]string{}, ids...), trs...)
	order := r.Perm(len(all))
	share := r.chance(0.3)
	grouped := r.chance(0.7) // as msgfmt does: tables first
	strs := []area{}
	for _, i := range order {
		strs = append(strs, area{"str", i})
	}
	if !grouped {
		areas = append(areas, strs...)
		r.Shuffle(len(areas), func(i, j int) { areas[i], areas[j] = areas[j], areas[i] })
	} else {
		r.Shuffle(len(areas), func(i, j int) { areas[i], areas[j] = areas[j], areas[i] })
		areas = append(areas, strs...)
	}
	buf := make([]byte, 28)
	offs := map[string]uint32{}
	soff := make([]uint32, len(all))
	seen := map[string]uint32{}
	tables := [][2]int{}
	for k, a := range areas {
		if a.kind != "str" || r.chance(0.1) {
			for len(buf)%4 != 0 {
				buf = append(buf, 0)
			}
		}
		if r.chance(0.1) {
			buf = append(buf, []byte("junk")...)
		}
		switch a.kind {
		case "str":
			s := all[a.idx]
			if o, ok := seen[s]; ok && share {
				soff[a.idx] = o
				continue
			}
			if share { // the end of another one, or another place with the same bytes
				if o := bytes.Index(buf[28:], append([]byte(s), 0)); o >= 0 && (len(s) > 0 || r.chance(0.5)) {
					if o += 28; !covers(tables, o, o+len(s)+1) {
						soff[a.idx] = uint32(o)
						continue
					}
				}
			}
			soff[a.idx] = uint32(len(buf))
			seen[s] = uint32(len(buf))
			buf = append(buf, s...)
			if k < len(areas)-1 || r.chance(0.5) {
				buf = append(buf, 0)
			}
		case "hash":
			offs["hash"] = uint32(len(buf))
			tables = append(tables, [2]int{len(buf), len(buf) + hash})
			for i := 0; i < hash; i++ {
				buf = append(buf, byte(r.Intn(256)))
			}
		default:
			offs[a.kind] = uint32(len(buf))
			tables = append(tables, [2]int{len(buf), len(buf) + 8*n})
			buf = append(buf, make([]byte, 8*n)...)
		}
	}
	for i := range all {
		t, k := offs["ids"], i
		if i >= n {
			t, k = offs["trs"], i-n
		}
		bo.PutUint32(buf[int(t)+8*k:], uint32(len(all[i])))
		bo.PutUint32(buf[int(t)+8*k+4:], soff[i])
	}
	bo.PutUint32(buf[0:], 0x950412de)
	bo.PutUint32(buf[4:], uint32(r.Intn(2))<<16|uint32(r.Intn(2)))
	bo.PutUint32(buf[8:], uint32(n))
	bo.PutUint32(buf[12:], offs["ids"])
	bo.PutUint32(buf[16:], offs["trs"])
	bo.PutUint32(buf[20:], uint32(hash/4))
	bo.PutUint32(buf[24:], offs["hash"])
	return buf
}

// covers tells whether from..to meets any of the areas.
func covers(areas [][2]int, from, to int) bool {
	for _, a := range areas {
		if from < a[1] && a[0] < to {
			return true
		}
	}
	return false
}

func img(b []byte) string { return string(b) }

// forMo keeps the separators of the MO format out of messages.
func forMo(ms []message) []message {
	cl := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "\x04", "|"), "\x00", "0")
	}
	out := []message{}
	at := map[[2]string]int{}
	for _, m := range ms {
		c := message{ctx: cl(m.ctx), id: strings.ReplaceAll(m.id, "\x00", "0"), pl: cl(m.pl), forms: map[int]string{}, refs: m.refs}
		if c.ctx == "" { // with a context, only the first EOT separates
			c.id = cl(c.id)
		}
		for i, f := range m.forms {
			c.forms[i] = cl(f)
		}
		k := [2]string{c.ctx, c.id}
		if j, ok := at[k]; ok {
			out[j] = c // no key twice
			continue
		}
		at[k] = len(out)
		out = append(out, c)
	}
	return out
}
