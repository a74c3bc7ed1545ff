package main

import (
	"fmt"
	"strings"
)

// Lexemes is a few tokens with anything that may stand in them, and often
// with nothing between them.
func (g *Gen) Lexemes() string {
	var b strings.Builder
	open := ""
	for n := 1 + g.n(5); n > 0; n-- {
		switch g.n(12) {
		case 0:
			i := g.n(5)
			b.WriteString([]string{"(", "[", "{", "#{", "#("}[i])
			open = string(")]}})"[i]) + open
		case 1:
			if open != "" {
				b.WriteString(open[:1])
				open = open[1:]
			}
		case 2:
			b.WriteString(g.pick([]string{"'", "`", "~", "~@", "@", "^", "#^", "#_", "#=", "#'", "#", "#?", "#?@", "#:"}))
		default:
			b.WriteString(g.lexeme())
		}
		if g.p(55) {
			b.WriteString(g.pick([]string{" ", " ", " ", "\n", ",", "\t", "\r", "\f", "\u00a0", "\u2003", " ;c\n"}))
		}
	}
	if g.p(90) {
		b.WriteString(open)
	}
	return b.String()
}

func (g *Gen) rune() string { return string(runeList[g.n(len(runeList))]) }

// inside is some text of n pieces at most.
func (g *Gen) inside(n int, pieces []string, odd int) string {
	var b strings.Builder
	for n = g.n(n + 1); n > 0; n-- {
		if g.p(odd) {
			b.WriteString(g.rune())
		} else {
			b.WriteString(g.pick(pieces))
		}
	}
	return b.String()
}

var (
	strPieces = []string{`\\`, `\"`, "\\\n", "\\\r", `\n`, `\u0041`, "\\é", "\n", "\r", "\t", "a", " ", ";", "(", ")", "#", "é", "世"}
	symPieces = []string{"a", "b", "Z", "0", "9", "+", "-", "/", ".", "'", "#", "%", ":", "&", "<", ">", "=", "!", "?", "*", "_", "$", "|", "`", "é", "世"}
	comPieces = []string{"a", " ", ";", "\"", "(", ")", "\\", "\t", "é", "#"}
)

func (g *Gen) lexeme() string {
	switch g.n(12) {
	case 0, 1:
		return `"` + g.inside(5, strPieces, 8) + `"`
	case 2:
		return `#"` + g.inside(5, strPieces, 8) + `"`
	case 3, 4, 5:
		return `\` + g.charBody()
	case 6:
		return g.pick([]string{":", "::"}) + g.inside(4, symPieces, 8)
	case 7:
		return g.pick([]string{"", "+", "-", "+", "-"}) + g.pick([]string{"0", "1", "8", "9", "", "٠"}) + g.inside(3, symPieces, 8)
	case 8:
		return g.pick([]string{";", "#!", ";;", "#!"}) + g.inside(5, comPieces, 15) + g.pick([]string{"\n", "\n", "\r", "\r\n", ""})
	case 9:
		return "#" + g.pick([]string{"", "", " ", "\n"}) + g.pick(symPieces) + g.inside(3, symPieces, 5)
	default:
		return g.pick(symPieces) + g.inside(4, symPieces, 8)
	}
}

func (g *Gen) charBody() string {
	hex := func(n int, digits string) string {
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteByte(digits[g.n(len(digits))])
		}
		s := b.String()
		if g.p(10) && len(s) > 0 {
			i := g.n(len(s))
			s = s[:i] + g.pick([]string{"g", "8", "_", "+", "-", "é", "", "x", "/", ":"}) + s[i+1:]
		}
		return s
	}
	switch g.n(8) {
	case 0, 1:
		return "u" + hex(4, "0123456789abcdefABCDEF0099ffFF")
	case 2:
		return "o" + hex(3, "0123456701234567014")
	case 3:
		return g.pick([]string{"u", "o"}) + hex(g.n(6), "01234567")
	case 4:
		s := g.pick([]string{"newline", "space", "tab", "formfeed", "backspace", "return"})
		switch g.n(5) {
		case 0:
			return s[:1+g.n(len(s))]
		case 1:
			return s + g.pick(symPieces)
		case 2:
			return strings.ToUpper(s[:1]) + s[1:]
		}
		return s
	case 5:
		return g.rune()
	case 6:
		return fmt.Sprintf("u%04x", 1<<uint(g.n(16))-g.n(2))
	default:
		return g.pick(symPieces) + g.inside(2, symPieces, 10)
	}
}

// Linked defines a name and then uses it.
func (g *Gen) Linked() string {
	names := []string{g.sym(), g.sym(), g.pick(plainSyms)}
	if g.p(30) {
		names[0] = g.pick(headSyms)
	}
	name := func() string {
		if g.p(75) {
			return names[0]
		}
		return names[g.n(3)]
	}
	form := func() string {
		switch g.n(8) {
		case 0:
			return g.form(1)
		case 1:
			return g.pick([]string{"'", "#'", "@", "`", "~", "^", "#"}) + name()
		case 2:
			return name()
		case 3:
			return "(" + g.pick([]string{"->", "cond->", "some->", "doto"}) + " x" + g.nl() + g.call(1, name(), name) + ")"
		default:
			return g.call(1, name(), name)
		}
	}
	def := func() string {
		s := "(" + g.pick([]string{"defmacro", "defmacro", "defn", "def", "defn-", "defmulti", "defmethod", "defprotocol", "deftype", "declare", "defonce", "let", "import", "require", "use", "alias", "refer", "in-ns", "ns", "set!", "letfn", "fn"}) + " "
		if g.p(20) {
			s += g.pick([]string{"^:a ", "^:private ", "^{:style/indent 1} ", "^{:doc \"a\n b\"} ", "^" + g.kw() + " ", "^{" + g.kw() + " " + g.atom() + "} ", "'"})
		}
		s += name() + g.nl()
		if g.p(15) {
			s += g.pick([]string{"\"a\n b\"", "{:a 1}", "{" + g.kw() + " 1}", g.kw()}) + g.nl()
		}
		if g.p(75) {
			s += "["
			for n := g.n(3); n > 0; n-- {
				s += g.sym() + " "
			}
			if g.p(60) {
				s += "& "
				if len(g.dict) > 0 && g.p(50) {
					s += g.pick(g.dict)
				} else {
					s += g.pick([]string{"body", "forms", "exprs", "args", "rest", "clauses", "bindings", "xs", "more"})
				}
			}
			s += "]" + g.nl()
		}
		return s + form() + ")"
	}
	s := def()
	for n := 1 + g.n(3); n > 0; n-- {
		s += "\n" + g.pick([]string{"", "", "\n", ";c\n", "#_"})
		if g.p(20) {
			s += def()
		} else {
			s += form()
		}
	}
	return s
}
