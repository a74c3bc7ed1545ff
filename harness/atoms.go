package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

// Texts cross the boundary between Go and TLA+ as arrays of atoms: see
// spec/Text.tla. knownRunes must agree with the tables there.
var knownRunes = func() map[rune]string {
	m := map[rune]string{'\n': "\n", '\t': "\t", '\r': "\r"}
	for r := rune(32); r < 127; r++ {
		m[r] = string(r)
	}
	for _, r := range []rune{0, 1, 0xB, 0xC, 0x1C, 0x7F, 0x85, 0xA0, 0xE9, 0x3BB, 0x1680, 0x2003, 0x2028,
		0x3000, 0x4E16, 0x754C, 0xFEFF, 0xFFFD, 0x1F600, 0x10348,
		0x2, 0x80, 0xAD, 0xB2, 0x1C5, 0x300, 0x660, 0x7FF, 0x800, 0x2000, 0x200B, 0x2029, 0x202F, 0x205F, 0x2160, 0xE000, 0xFF11, 0xFFFF, 0x10000, 0x10FFFF} {
		m[r] = fmt.Sprintf("u+%04X", r)
	}
	return m
}()

// runeList has the known runes in order.
var runeList = func() []rune {
	var rs []rune
	for r := range knownRunes {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}()

// atoms converts a text; it reports false for texts outside the known
// alphabet.
func atoms(s string) ([]string, bool) {
	out := make([]string, 0, len(s))
	ok := true
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		a, known := knownRunes[r]
		if r == utf8.RuneError && n == 1 {
			known = false
		}
		if !known {
			ok = false
			a = fmt.Sprintf("u+%04X", r)
			if r == utf8.RuneError && n == 1 {
				a = fmt.Sprintf("byte%02X", s[0])
			}
		}
		out = append(out, a)
		s = s[n:]
	}
	return out, ok
}

func mustAtoms(s string) []string { a, _ := atoms(s); return a }

func knownText(s string) bool { _, ok := atoms(s); return ok }

func unatoms(a []string) string {
	var b strings.Builder
	for _, x := range a {
		if strings.HasPrefix(x, "u+") && len(x) > 2 {
			var r rune
			fmt.Sscanf(x[2:], "%X", &r)
			b.WriteRune(r)
		} else if strings.HasPrefix(x, "byte") && len(x) == 6 {
			var c byte
			fmt.Sscanf(x[4:], "%X", &c)
			b.WriteByte(c)
		} else {
			b.WriteString(x)
		}
	}
	return b.String()
}
