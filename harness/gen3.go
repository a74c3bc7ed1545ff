package main

import "strings"

// Blank makes nested sequences with many blank lines and trailing newlines.
func (g *Gen) Blank() string {
	var rec func(d int) string
	nls := func() string {
		s := ""
		for i, n := 0, g.n(5); i < n; i++ {
			s += g.pick([]string{"\n", "\n", "\n", " \n", "\n  "})
		}
		if s == "" {
			s = " "
		}
		if g.p(12) && !g.noComments {
			s += g.comment() + g.pick([]string{"\n", "\n\n\n", "\n\n"})
		}
		return s
	}
	rec = func(d int) string {
		if d <= 0 || g.p(30) {
			return g.atom()
		}
		k := g.n(8)
		open := []string{"(", "[", "{", "#{", "#?(", "#?@(", "'(", "(foo "}[k]
		cl := []string{")", "]", "}", "}", ")", ")", ")", ")"}[k]
		s := open
		if g.p(30) {
			s += nls()
		}
		for i, n := 0, g.n(4); i < n; i++ {
			s += rec(d-1) + nls()
		}
		return s + cl
	}
	s := ""
	if g.p(20) {
		s = nls()
	}
	for i, n := 0, 1+g.n(3); i < n; i++ {
		s += rec(3) + nls()
	}
	return s
}

// Defs makes defn- and defmethod-like forms.
func (g *Gen) Defs() string {
	gap := func() string {
		return g.pick([]string{" ", " ", "\n", "\n", "\n", "\n\n", " ;c\n", "\n;c\n"})
	}
	s := "(" + g.pick([]string{"", "", "", "", "\n", "#_z "}) + g.pick([]string{"defn", "defn", "defmethod", "defmethod", "defn-", "defmacro", "s/defn", "defmulti", "fn"})
	for i, n := 0, 1+g.n(6); i < n; i++ {
		s += gap()
		if g.p(8) {
			s += g.pick([]string{"^:p ", "^String\n", "#_z ", "#t "})
		}
		switch k := g.n(10); {
		case i == 0 && k < 8:
			s += "foo"
		case i == 1 && k < 8:
			s += g.pick([]string{"[a]", "[]", ":k", ":k", "[a\nb]", "::k", "\"doc\"", "'x", ":default"})
		case k < 3:
			s += "[x]"
		case k < 5:
			s += "(g x)"
		default:
			s += g.atom()
		}
	}
	if g.p(20) {
		s += gap()
	}
	s += ")"
	if g.p(15) {
		s = "(do " + s + ")"
	}
	if g.p(15) {
		s = s + g.ws() + g.Defs()
	}
	return s
}

// Unused makes a file with requires and uses of them.
func (g *Gen) Unused() string {
	if g.p(15) {
		return g.NS() + g.ws() + g.File()
	}
	libs := []string{"a", "b", "foo.bar", "foo-bar.x-y", "q", "z1", "s"}
	als := []string{"a", "s", "x", "q", "al", "foo.bar"}
	refs := []string{"f", "g", "x", "->y", "/", "m*", "a"}
	lib := func() string { return libs[g.n(len(libs))] }
	s := "(ns n"
	for i, n := 0, 1+g.n(3); i < n; i++ {
		if g.p(8) {
			s += " " + g.pick([]string{"#_ #_ x", "^:x", "#_ (:x)", ":k", "\"d\""})
		}
		s += g.pick([]string{" ", "\n  "}) + "(" + g.pick([]string{":require", ":require", ":require", ":require-macros", ":import", ":use"})
		imp := strings.HasSuffix(s, "import")
		for j, m := 0, g.n(5); j < m; j++ {
			s += g.pick([]string{" ", "\n    ", " ", "\n", " ;c\n", "\n;c\n"})
			if imp {
				s += g.pick([]string{"foo_bar.x_y.Z", "(foo_bar.x_y A B)", "[foo.bar C]", "a.Q", "Q", "(q)", "foo.bar", "^:x (a B)", "z1.", "(:k x)"})
				continue
			}
			if g.p(6) {
				s += g.pick([]string{"^:x ", "#_ #_ y ", "#t ", "#_ z ", ":reload ", "3 "})
			}
			switch g.n(10) {
			case 0:
				s += lib()
			case 1:
				s += "[" + lib() + "]"
			case 2:
				s += "[" + g.pick([]string{"\n", " ", ";c\n", "^:m "}) + lib() + g.pick([]string{"\n", "", " ;c\n"}) + "]"
			case 3:
				s += g.libspec()
			default:
				o, c := "[", "]"
				if g.p(20) {
					o, c = "(", ")"
				}
				s += o + lib()
				for k, l := 0, 1+g.n(2); k < l; k++ {
					switch g.n(5) {
					case 0, 1:
						s += " :as " + als[g.n(len(als))]
					case 2, 3:
						s += g.pick([]string{" :refer ", " :refer-macros "}) + "["
						for a, b := 0, g.n(4); a < b; a++ {
							s += refs[g.n(len(refs))] + g.pick([]string{" ", " ", "\n", " ;c\n"})
						}
						s += "]"
					case 4:
						s += g.pick([]string{" :refer :all", " :include-macros true", " :refer (f g)", " :refer f", " :as :k", " :only [f]", " :exclude [f]", " :rename {f g}"})
					}
				}
				s += c
			}
		}
		s += ")"
	}
	s += ")\n"
	for i, n := 0, g.n(5); i < n; i++ {
		a := g.pick([]string{"a", "s", "x", "q", "al", "foo.bar", "b", "z1", "foo-bar.x-y"})
		rf := refs[g.n(len(refs))]
		s += g.pick([]string{a + "/f", "#'" + a + "/g", "::" + a + "/k", ":" + a + "/k", "#::" + a + "{:k 1}", "#:" + a + "{:k 1}", rf, "#'" + rf, "'" + rf, "`" + a + "/z",
			"@" + a + "/v", "^" + a + "/t x", "#" + a + "/tag x", "#_" + a + "/d", ";" + a + "/c\n", "\"" + a + "/s\"", a, "[" + a + "/f]", "(" + rf + " 1)", "{:k " + a + "/f}",
			"::" + a, "#::{:k 1}", a + "/b/c", "#(" + a + "/f %)", "#?(:clj " + a + "/f)", "(do (let [x " + a + "/f] x))", "(ns k " + a + "/f)", "(" + a + "/f)", "~" + a + "/f", "#=" + rf, "'(" + a + "/f)"}) + "\n"
	}
	return s
}
