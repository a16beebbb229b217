package main

import "strings"

// lex splits a text into the atoms of spec/Str.tla (operator Lex): lossless, context-free but for
// the character after a backslash.
func lex(s string) []string {
	out := []string{}
	start := 0
	flush := func(i int) {
		if start < i {
			out = append(out, s[start:i])
		}
	}
	for i := 0; i < len(s); {
		c := s[i]
		if c == '\\' && i+1 < len(s) && s[i+1] != '\n' {
			flush(i)
			out = append(out, "\\", s[i+1:i+2])
			i += 2
			start = i
			continue
		}
		if strings.IndexByte("\"\\\n\r\t\f\v #:[]", c) >= 0 {
			flush(i)
			out = append(out, s[i:i+1])
			i++
			start = i
			continue
		}
		i++
	}
	flush(len(s))
	return out
}

func limbs(n uint32) []int { return []int{int(n >> 16), int(n & 0xffff)} }

// wide makes limbs of any integer: the first may be negative or longer than 16 bits.
func wide(n int) []int { return []int{n >> 16, n & 0xffff} }
