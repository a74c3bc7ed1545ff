package main

import "strings"

// Focused generators.

var soupTokens = []string{
	"a", "foo", "comment", "nil", "true", ":k", "::s/k", "1", "-2", "+", `"s"`, "\"a\nb\"", `\a`, `\newline`, `\u0041`, `\(`, ";c\n", ";c", ";c\r", "#!x\n",
	"\n", "\n\n", " ", ",", "(", ")", "[", "]", "{", "}", "#{", "#(", "#?(", "#?@(", "#:a{", "#::{", "#:a", "#_", "#'", "#=", "#^", "^", "'", "`", "~", "~@", "@",
	"#t", "# t", "#", `#"r"`, "(comment", "#?", "#?@", ")", "]", "}", ")", " ", " ", "\n",
}

// Soup is a sequence of tokens, most often closed properly.
func (g *Gen) Soup() string {
	var b strings.Builder
	var open []byte
	for n := 1 + g.n(14); n > 0; n-- {
		t := g.pick(soupTokens)
		switch t {
		case ")", "]", "}":
			if len(open) > 0 && g.p(90) {
				t = string(open[len(open)-1])
				open = open[:len(open)-1]
			} else if g.p(80) {
				continue
			}
		}
		switch t[len(t)-1] {
		case '(':
			if t != `\(` {
				open = append(open, ')')
			}
		case '[':
			open = append(open, ']')
		case '{':
			open = append(open, '}')
		}
		if t == "(comment" {
			open = append(open, ')')
		}
		b.WriteString(t)
		if g.p(60) {
			b.WriteString(g.pick([]string{" ", " ", " ", "\n", ",", "\n "}))
		}
	}
	if g.p(92) {
		for i := len(open) - 1; i >= 0; i-- {
			b.WriteByte(open[i])
			if g.p(20) {
				b.WriteString(g.pick([]string{" ", "\n"}))
			}
		}
	}
	return b.String()
}

// Small is a short file.
func (g *Gen) Small() string {
	switch g.n(10) {
	case 0, 1, 2:
		if g.p(25) {
			return g.Lexemes()
		}
		return g.Soup()
	case 3, 4, 5, 6:
		return g.form(3)
	default:
		return g.File()
	}
}

// nl is some white space with at least one newline in it most of the time.
func (g *Gen) nl() string {
	switch g.n(10) {
	case 0, 1, 2:
		return " "
	case 3:
		return "\n\n"
	case 4:
		if g.noComments {
			return "\n"
		}
		return " " + g.comment() + "\n"
	case 5:
		if g.noComments {
			return "\n"
		}
		return "\n" + g.comment() + "\n"
	default:
		return "\n" + g.indent()
	}
}

// arg is an argument of a form whose layout is of interest.
func (g *Gen) arg(d int, head func() string) string {
	if d <= 0 {
		return g.atom()
	}
	switch g.n(12) {
	case 0, 1, 2, 3:
		return g.atom()
	case 4, 5:
		return g.call(d-1, head(), head)
	case 6, 7:
		s := "["
		for i, n := 0, g.n(6); i < n; i++ {
			if i > 0 {
				s += g.nl()
			}
			if g.p(15) {
				s += ":let" + g.nl() + "[" + g.arg(d-1, head) + g.nl() + g.arg(d-1, head) + g.nl() + g.atom() + "]"
			} else {
				s += g.arg(d-1, head)
			}
		}
		return s + "]"
	case 8:
		return "{" + g.arg(d-1, head) + g.nl() + g.arg(d-1, head) + g.nl() + g.atom() + "}"
	case 9:
		return g.pick([]string{":>>", ":let", ":else", ":a"})
	case 10:
		return g.pick([]string{"^:x ", "#_", "#t ", "'", "@", "#_x ", "^{:a\n1} "}) + g.arg(d-1, head)
	default:
		i := g.n(4)
		return []string{"#(", "#{", "#?(", "#?@("}[i] + g.arg(0, head) + g.nl() + g.arg(0, head) + g.nl() + g.arg(0, head) + []string{")", "}", ")", ")"}[i]
	}
}

// call is (name args...) over several lines.
func (g *Gen) call(d int, name string, head func() string) string {
	s := "(" + name
	n := g.n(7)
	for i := 0; i < n; i++ {
		s += g.nl() + g.arg(d, head)
	}
	if g.p(10) {
		s += g.nl()
	}
	return s + ")"
}

func (g *Gen) Calls() string {
	head := func() string {
		if g.p(20) {
			return g.sym()
		}
		return g.pick(headSyms)
	}
	s := ""
	for i, n := 0, 1+g.n(2); i < n; i++ {
		if i > 0 {
			s += g.nl()
		}
		s += g.call(2, head(), head)
	}
	return s
}

// Override tests.

var ovMacros = []string{"m1", "m2", "let", "defz", "cond", "with-q", "m", "->"}
var ovLibs = []string{"a.b", "foo", "q1", "x"}
var ovAliases = []string{"s", "x", "q1", "foo", "al"}

func (g *Gen) ovName() string {
	m := g.pick(ovMacros)
	switch g.n(5) {
	case 0, 1:
		return m
	case 2:
		return g.pick(ovAliases) + "/" + m
	case 3:
		return g.pick(ovLibs) + "/" + m
	default:
		return g.pick([]string{"zz/", "a/b/", "/"}) + m
	}
}

func (g *Gen) ovNS() string {
	s := "(ns n"
	for i, n := 0, 1+g.n(2); i < n; i++ {
		s += " (" + g.pick([]string{":require", ":require", ":require-macros", ":use", ":import"})
		for j, m := 0, 1+g.n(3); j < m; j++ {
			o, c := "[", "]"
			if g.p(20) {
				o, c = "(", ")"
			}
			s += "\n" + o + g.pick(ovLibs)
			if g.p(60) {
				s += " :as " + g.pick(ovAliases)
			}
			if g.p(50) {
				s += g.pick([]string{" :refer ", " :refer-macros ", " :refer "}) + g.pick([]string{"[", "["})
				for k, l := 0, 1+g.n(2); k < l; k++ {
					s += g.pick(ovMacros) + " "
				}
				s += "]"
			}
			if g.p(6) {
				s += " :refer :all"
			}
			s += c
		}
		s += ")"
	}
	return s + ")"
}

func (g *Gen) Overrides() string {
	s := ""
	if g.p(85) {
		s = g.ovNS() + "\n"
	}
	head := g.ovName
	for i, n := 0, 1+g.n(2); i < n; i++ {
		s += g.call(2, head(), head) + "\n"
	}
	if g.p(8) {
		s += g.ovNS()
	}
	return s
}

// Thread-first tests.

var tfHeads = []string{"->", "some->", "cond->", "->>", "my->", "cnd>", "as->", "cond->>", "doto"}
var condHeads = []string{"cond", "case", "condp", "assoc", "cond->", "defproject", "->", "some->", "if", "let", "foo", "cond4x", "for", "letfn", "deftype"}

func (g *Gen) tfForm(d int) string {
	s := g.pick([]string{"(", "(", "(", "(", "#("}) + g.pick(tfHeads)
	if strings.HasPrefix(s, "#(") {
		g.noFn = true
		defer func() { g.noFn = false }()
	}
	n := g.n(7)
	for i := 0; i < n; i++ {
		s += g.nl()
		if g.p(6) {
			s += g.pick([]string{"#_x ", "^:y ", "#t ", "#_(case x\na\nb)\n"})
		}
		switch k := g.n(10); {
		case k < 2:
			s += g.pick([]string{"x", ":k", "1", "[a\nb]", "@(cond\na\nb)", "'(cond\na\nb)"})
		case k < 4 && d > 0:
			f := g.tfForm(d - 1)
			if g.noFn {
				f = strings.TrimPrefix(f, "#")
			}
			s += f
		default:
			s += "(" + g.pick(condHeads)
			for j, m := 0, g.n(6); j < m; j++ {
				s += g.nl()
				if d > 0 && g.p(12) {
					f := g.tfForm(d - 1)
					if g.noFn {
						f = strings.TrimPrefix(f, "#")
					}
					s += f
				} else if g.p(10) {
					s += "[a\nb\n:let\n[c\nd]]"
				} else {
					s += g.pick([]string{"a", "b", ":k", ":>>", "(f\nx)", "2"})
				}
			}
			s += ")"
		}
	}
	return s + ")"
}

func (g *Gen) ThreadFirst() string {
	s := g.tfForm(2)
	if g.p(30) {
		s = g.pick([]string{"(defn f []\n", "[a\n", "{:a\n", "(let [a\n", "(cond x\n"}) + s
		switch s[0] {
		case '(':
			if strings.HasPrefix(s, "(let") {
				s += "\nb]"
			}
			s += ")"
		case '[':
			s += "]"
		case '{':
			s += "}"
		}
	}
	return s
}

// Docs makes forms with strings where docstrings go.
func (g *Gen) Docs() string {
	ls := func() string {
		s := ""
		for i, n := 0, g.n(5); i < n; i++ {
			if i > 0 {
				s += g.pick([]string{"\n", "\n", "\n\n", "\r\n"})
			}
			s += g.pick([]string{"", " ", "  ", "   ", "\t", "      ", "             ", " \t", "\u00a0"}) +
				g.pick([]string{"a", "foo bar", `\"q\"`, "é x", "", "世", ";c", "x\ty", "(a"}) + g.pick([]string{"", "", " ", "  ", "\t", "\u00a0"})
		}
		return `"` + s + `"`
	}
	gap := func() string {
		return g.pick([]string{" ", "\n", "\n  ", "\n\n", " ", " ;c\n", "\n;c\n", ""})
	}
	s := g.pick([]string{"", "", "", "", "x ", "\"a\nb\" ", "\n", "; c\n", "^:m ", "#_", "'", "("})
	open := strings.HasSuffix(s, "(")
	s += "(" + g.pick([]string{"", "", "", "", "\n", " "}) + g.pick([]string{"def", "defn", "defmacro", "defmulti", "ns", "defn-", "defonce", "defmethod", "def", "defn", "s/defn", "definline"})
	s += " " + g.pick([]string{"", "", "", "", "^:p ", "#_ z ", "\n"}) + g.pick([]string{"x", "foo-bar", ":k", "x", "x", "[a]", "nil"}) + gap()
	for i, n := 0, g.n(5); i < n; i++ {
		s += g.pick([]string{ls(), ls(), ls(), "[a]", "y", "#_z", ";c\n", "^:m", "#t", "#_ #_ a", "(f " + ls() + "\nx)", "{:a " + ls() + "}"}) + gap() + " "
	}
	s += ")"
	if open {
		s += ")"
	}
	return s
}
