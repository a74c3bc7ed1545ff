package main

import (
	"math/rand"
	"strings"
)

// Gen produces Clojure-like source text. Every random choice comes from r, so
// a seed determines the text.
type Gen struct {
	r    *rand.Rand
	dict []string // extra symbol vocabulary
	kws  []string // extra keywords
	ints []int    // interesting sizes
	// cfg
	noComments bool
	noPrefix   bool
	noFn       bool
	plainWS    bool // only spaces and newlines between forms
	maxDepth   int
}

func NewGen(seed int64) *Gen {
	return &Gen{r: rand.New(rand.NewSource(seed)), maxDepth: 4}
}

func (g *Gen) n(k int) int            { return g.r.Intn(k) }
func (g *Gen) p(pct int) bool         { return g.r.Intn(100) < pct }
func (g *Gen) pick(s []string) string { return s[g.r.Intn(len(s))] }

var plainSyms = []string{
	"a", "b", "c", "x", "y", "foo", "bar", "baz", "f", "g", "inc", "+", "-", "/", "*", "=", "<", ">", "->x", "-x", "+foo",
	"a/b", "foo.bar/baz", "x//", "%", "%1", "%&", "&", "a'", "b#", "a%b", "foo-bar-baz-quux-long-name", "é", "λx", "世", "Foo.", ".foo", "..",
	"_", "?x", "!", "=x", "<x", "nil?", "nilx", "truex", "a:b", "x!", "*ns*", "'a"[1:],
}

var headSyms = []string{
	"as->", "assoc", "binding", "bound-fn", "case", "catch", "cond", "cond->", "cond->>", "condp", "def", "definline",
	"definterface", "defmacro", "defmethod", "defmulti", "defn", "defn-", "defonce", "defproject", "defprotocol",
	"defrecord", "defstruct", "deftest", "deftest-", "deftype", "doseq", "dotimes", "doto", "extend", "extend-protocol",
	"extend-type", "fn", "for", "if", "if-let", "if-not", "if-some", "let", "letfn", "locking", "loop", "ns", "proxy",
	"reify", "send-off", "set-test", "testing", "update", "update-in", "when", "when-first", "when-let", "when-not",
	"when-some", "while", "with-bindings", "with-in-str", "with-local-vars", "with-open", "with-precision",
	"with-redefs", "with-redefs-fn", "with-test", "->", "some->", "->>", "comment", "do", "try", "let-foo", "with-foo",
	"when-foo", "deffoo", "letx", "s/defn", "s/let", "foo/if", "clojure.core/let", "clojure.core/cond", "s/->", "defn/x", "with-x/y",
	"let/", "foo/with-it", "a.b/when-z", "my/letfn2", "condp/", "quote", "var", "cond->x",
}

var keywords = []string{":a", ":b", ":foo", "::x", "::s/y", ":a/b", ":let", ":when", ":while", ":>>", ":else", ":default", ":clj", ":cljs", ":", ":as", ":refer", ":all", ":-", ":a:b", ":é", ":1", ":a'", ":a#"}

var numbers = []string{"0", "1", "42", "-1", "+7", "1.5", "1/2", "0x1F", "1e10", "3N", "2r101", "08", "3foo", "-3x", "1'"}

var chars = []string{`\a`, `\newline`, `\space`, `\tab`, `\formfeed`, `\backspace`, `\return`, `\o101`, `\o007`, `\u0041`, `\u00e9`, `\(`, `\)`, `\[`, `\]`, `\{`, `\}`, `\;`, `\"`, `\\`, `\@`, `\^`, `\~`, `\'`, `\,`, `\ `, "\\\n", `\é`, `\世`, `\o`, `\u`, `\#`, `\%`, "\\\t", `\n`, `\1`}

var badChars = []string{`\ab`, `\o9`, `\o12`, `\u12`, `\uzzzz`, `\newlinex`, `\o8zz`, `\u-123`, `\o-12`, `\u12345`, `\o1234`, `\o+12`, `\u+123`, `\(a`}

var strs = []string{`""`, `"a"`, `"foo bar"`, `"a\"b"`, `"\\"`, `"a\\\"b"`, "\"a\nb\"", "\"a\n  b\n\"", `";not"`, `"(["`, `"é世"`, "\"a\n\n  b  \n    c\"", "\"\n\"", "\"\\\\\\\\\"", "\"a\tb\"", "\"x\r\ny\"", "\" a \"", "\"a\\n b\""}

var regexes = []string{`#""`, `#"a"`, `#"\d+"`, `#"\""`, `#"[(]"`, "#\"a\nb\"", `#"\\"`}

var tags = []string{"#foo", "#inst", "#a/b", "# foo", "#nil", "#+", "# _", "# =x", "# ?a", "# !a", "# <a", "# %", "#é", "#\nfoo", "#,foo"}

// size is an interesting size, often small.
func (g *Gen) size(max int) int {
	if len(g.ints) > 0 && g.p(70) {
		if n := g.ints[g.n(len(g.ints))] + g.n(3) - 1; n <= max && n > 0 {
			return n
		}
	}
	return 1 + g.n(20)
}

func (g *Gen) kw() string {
	if len(g.kws) > 0 && g.p(20) {
		return g.pick(g.kws)
	}
	return g.pick(keywords)
}

func (g *Gen) sym() string {
	if g.p(2) {
		return strings.Repeat(g.pick([]string{"a", "b", "-", "é"}), g.size(40))
	}
	if len(g.dict) > 0 && g.p(15) {
		return g.pick(g.dict)
	}
	if g.p(15) {
		return g.pick(headSyms)
	}
	return g.pick(plainSyms)
}

func (g *Gen) comment() string {
	return g.pick([]string{";c", "; foo ", ";", ";; (bar", ";\"", "#!x", ";é", ";c1", ";c2", ";c3", "; x\tz", ";)", ";  trailing  "})
}

// ws returns whitespace between two forms (at least one separating character).
func (g *Gen) ws() string {
	switch k := g.n(100); {
	case k < 50:
		return " "
	case k < 72:
		return "\n" + g.indent()
	case k < 80:
		return g.pick([]string{"\n\n", "\n\n\n", "\n \n", " \n\n\n\n", "\n,\n\t\n"}) + g.indent()
	case k < 90:
		if g.noComments {
			return "\n"
		}
		s := g.pick([]string{" ", "\n", "", "\n\n", " \n "}) + g.comment() + "\n"
		if g.p(30) {
			s += g.indent() + g.comment() + "\n"
		}
		if g.p(15) {
			s += "\n"
		}
		return s + g.indent()
	case k < 94:
		if g.plainWS {
			return " "
		}
		return g.pick([]string{",", ", ", " ,", "\t", "  ", "\r\n", ",\n", "\u00a0", "\u2003", "\u3000", "\x0b", "\x0c", "\u2028", "\u0085"})
	case k < 95:
		if g.plainWS || g.noComments {
			return " "
		}
		return g.comment() + g.pick([]string{"\r\n", "\r", "\r\r\n"})
	case k < 96:
		return strings.Repeat(" ", g.size(30))
	case k < 97:
		return strings.Repeat("\n", g.size(8)) + g.indent()
	default:
		return "   "
	}
}

func (g *Gen) indent() string {
	if g.p(50) {
		return ""
	}
	return strings.Repeat(" ", g.n(7))
}

func (g *Gen) optws() string {
	if g.p(70) {
		return ""
	}
	return g.ws()
}

func (g *Gen) atom() string {
	switch k := g.n(100); {
	case k < 43:
		return g.sym()
	case k < 45:
		return g.lexeme()
	case k < 60:
		return g.kw()
	case k < 68:
		return g.pick(numbers)
	case k < 76:
		return g.pick(strs)
	case k < 82:
		return g.pick(chars)
	case k < 85:
		return g.pick(regexes)
	case k < 92:
		return g.pick([]string{"nil", "true", "false"})
	case k < 94:
		return "#'" + g.sym()
	default:
		return g.sym()
	}
}

func (g *Gen) seq(d int) string {
	n := g.n(5)
	if g.p(10) {
		n += 4
	}
	if g.p(2) {
		d, n = 1, g.size(40)
	}
	return g.seqN(d, n)
}

func (g *Gen) seqN(d, n int) string {
	var b strings.Builder
	b.WriteString(g.optws())
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(g.ws())
		}
		b.WriteString(g.form(d - 1))
	}
	b.WriteString(g.optws())
	return b.String()
}

var prefixes = []string{"'", "`", "~", "~@", "@", "#_", "^", "#^", "#="}

func (g *Gen) form(d int) string {
	if d <= 0 {
		return g.atom()
	}
	switch k := g.n(100); {
	case k < 40:
		return g.atom()
	case k < 55:
		return g.headForm(d)
	case k < 62:
		return "(" + g.seq(d) + ")"
	case k < 70:
		return "[" + g.seq(d) + "]"
	case k < 75:
		return "{" + g.seq(d) + "}"
	case k < 78:
		return "#{" + g.seq(d) + "}"
	case k < 81:
		return "#(" + g.seq(d) + ")"
	case k < 83:
		return g.pick([]string{"#?", "#?@", "#? ", "#?@ "}) + "(" + g.seq(d) + ")"
	case k < 85:
		return "#" + g.pick([]string{":a", "::", "::a", ":a.b", ":"}) + g.pick([]string{"", "", " "}) + "{" + g.seq(d) + "}"
	case k < 95:
		if g.noPrefix {
			return g.atom()
		}
		return g.prefixed(d)
	default:
		if g.noPrefix {
			return g.atom()
		}
		return g.pick(tags) + g.ws() + g.form(d-1)
	}
}

func (g *Gen) prefixed(d int) string {
	p := g.pick(prefixes)
	gap := ""
	if g.p(20) {
		gap = g.ws()
	}
	if p == "^" || p == "#^" {
		return p + gap + g.form(d-1) + g.ws() + g.form(d-1)
	}
	if p == "#_" && g.p(25) {
		return "#_" + gap + "#_" + g.form(d-1) + g.ws() + g.form(d-1)
	}
	return p + gap + g.form(d-1)
}

// headForm makes a list that starts with a name the formatter treats specially.
func (g *Gen) headForm(d int) string {
	var h string
	if len(g.dict) > 0 && g.p(25) {
		h = g.pick(g.dict)
	} else {
		h = g.pick(headSyms)
	}
	if g.p(8) {
		h = g.pick([]string{"s/", "x/", "clojure.core/", "my.ns/"}) + h
	}
	n := 1 + g.n(6)
	var b strings.Builder
	b.WriteString("(")
	if g.p(6) {
		b.WriteString(g.ws())
	}
	b.WriteString(h)
	for i := 0; i < n; i++ {
		b.WriteString(g.ws())
		if i == 0 && g.p(50) {
			b.WriteString("[" + g.seqN(d-1, g.n(7)) + "]")
		} else {
			b.WriteString(g.form(d - 1))
		}
	}
	b.WriteString(g.optws())
	b.WriteString(")")
	return b.String()
}

// File makes a whole source file.
func (g *Gen) File() string {
	var b strings.Builder
	b.WriteString(g.optws())
	n := 1 + g.n(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(g.ws())
		}
		switch k := g.n(100); {
		case k < 15:
			b.WriteString(g.NS())
		case k < 40:
			b.WriteString(g.Def())
		case k < 50:
			b.WriteString(g.If())
		default:
			b.WriteString(g.form(g.maxDepth))
		}
	}
	b.WriteString(g.optws())
	if g.p(50) {
		b.WriteString(g.pick([]string{"\n", "\n\n", "\n\n\n\n", " "}))
	}
	return b.String()
}

var docs = []string{
	"\"doc\"", "\"doc\n  more\"", "\"doc\nmore\n\n   even more\n\"", "\"a\n  b  \n      c\n  \"", "\"\n\"", "\"  a\n\tb\n \t c\"", "\"a\\\"b\n c\"", "\"x\r\n  y\r\n\"", "\"a\n \u00a0b\u00a0\n\"", "\"a\n            far\n b\"",
	"\"a\n é\n   世\"", "\"a\n\n\n\n b\"",
}

// Def makes a def-like form, often with something docstring-like.
func (g *Gen) Def() string {
	var b strings.Builder
	b.WriteString("(")
	b.WriteString(g.pick([]string{"def", "defn", "defn", "defmacro", "defmulti", "defmethod", "defmethod", "defn-", "ns", "defonce"}))
	n := g.n(6)
	b.WriteString(g.ws())
	switch g.n(10) {
	case 0:
		if !g.noPrefix {
			b.WriteString("^:private" + g.ws())
		}
	case 1:
		b.WriteString(g.form(2) + g.ws())
	}
	if g.p(95) {
		b.WriteString(g.sym())
	}
	for i := 0; i < n; i++ {
		b.WriteString(g.ws())
		switch k := g.n(10); {
		case k < 3:
			b.WriteString(g.pick(docs))
		case k < 5:
			b.WriteString("[" + g.seqN(2, g.n(3)) + "]")
		case k < 7:
			b.WriteString(g.kw())
		default:
			b.WriteString(g.form(3))
		}
	}
	b.WriteString(g.optws())
	b.WriteString(")")
	return b.String()
}

func (g *Gen) If() string {
	var b strings.Builder
	b.WriteString("(" + g.pick([]string{"if", "if-not", "if-let", "if-some", "when", "if", "s/if"}))
	n := g.n(6)
	for i := 0; i < n; i++ {
		b.WriteString(g.ws())
		if g.p(12) && !g.noPrefix {
			b.WriteString(g.pick([]string{"^x ", "^x\n", "#foo ", "#_x ", "#foo\n", "#_ x\n"}))
		}
		b.WriteString(g.form(2))
	}
	b.WriteString(g.optws())
	b.WriteString(")")
	return b.String()
}

var libs = []string{"a", "b", "c", "a.b", "foo", "foo.bar", "foo-bar.x-y", "clojure.string", "z", "q1"}
var aliases = []string{"a", "s", "x", "y", "str", "foo", "z1"}
var refs = []string{"f", "g", "h", "->", "/", "f1", "x", "m", "*"}

func (g *Gen) libspec() string {
	lib := g.pick(libs)
	if g.p(25) {
		return lib
	}
	o, c := "[", "]"
	if g.p(20) {
		o, c = "(", ")"
	}
	var b strings.Builder
	b.WriteString(o)
	if g.p(5) {
		b.WriteString(g.ws())
	}
	b.WriteString(lib)
	sp := func() string {
		if g.p(85) {
			return " "
		}
		return g.ws()
	}
	refl := func() string {
		o, c := "[", "]"
		if g.p(20) {
			o, c = "(", ")"
		}
		s := o
		for i, n := 0, g.n(4); i < n; i++ {
			if i > 0 {
				s += sp()
			}
			s += g.pick(refs)
		}
		return s + c
	}
	for i, n := 0, g.n(3); i < n; i++ {
		b.WriteString(sp())
		switch k := g.n(16); {
		case k < 6:
			b.WriteString(":as" + sp() + g.pick(aliases))
		case k < 10:
			b.WriteString(":refer" + sp() + refl())
		case k < 11:
			b.WriteString(":refer" + sp() + ":all")
		case k < 12:
			b.WriteString(":refer-macros" + sp() + refl())
		case k < 13:
			b.WriteString(":only" + sp() + refl())
		case k < 14:
			b.WriteString(":exclude" + sp() + refl())
		case k < 15:
			b.WriteString(":rename {f g}")
		default:
			b.WriteString("[" + g.pick(libs) + " :as " + g.pick(aliases) + "]")
		}
	}
	b.WriteString(c)
	return b.String()
}

func (g *Gen) importspec() string {
	switch g.n(8) {
	case 0, 1, 2:
		return g.pick([]string{"java.util.Date", "java.io.File", "Foo", "a.B", "foo_bar.x_y.Z", "java.", ".x", "a.b.c.D", "java.util.Map$Entry"})
	case 3, 4, 5:
		return "(" + g.pick([]string{"java.util", "java.io", "foo_bar.x_y", "a"}) + g.pick([]string{" ", "\n"}) + g.pick([]string{"Date", "File Reader", "Z", "A\nB"}) + ")"
	default:
		return "[" + g.pick([]string{"java.util", "java.io", "a.b"}) + " " + g.pick([]string{"Date", "File Reader", "Z"}) + "]"
	}
}

// NS makes an ns form.
func (g *Gen) NS() string {
	var b strings.Builder
	b.WriteString("(ns" + g.ws())
	if g.p(8) && !g.noPrefix {
		b.WriteString("^{:a 1} ")
	}
	b.WriteString(g.pick([]string{"foo", "my.ns", "a"}))
	if g.p(25) {
		b.WriteString(g.ws() + g.pick(docs))
	}
	if g.p(10) {
		b.WriteString(g.ws() + "{:author \"x\"}")
	}
	for i, n := 0, g.n(4); i < n; i++ {
		b.WriteString(g.ws())
		b.WriteString(g.clause())
	}
	b.WriteString(g.optws())
	b.WriteString(")")
	return b.String()
}

func (g *Gen) clause() string {
	var b strings.Builder
	o, c := "(", ")"
	if g.p(10) {
		o, c = "[", "]"
	}
	b.WriteString(o)
	kind := g.pick([]string{"require", "require", "require", "import", "import", "use", "require-macros", "use-macros", "refer-clojure", "load", "gen-class", "foo", "import"})
	if g.p(90) {
		b.WriteString(":")
	}
	b.WriteString(kind)
	n := g.n(5)
	if g.p(10) {
		// Many short entries, with equal names.
		for i, n := 0, 8+g.n(30); i < n; i++ {
			b.WriteString(g.pick([]string{" ", " ", " ", "\n", "\n", "\n  ", " ;c\n", "\n;d\n"}))
			b.WriteString(g.pick([]string{"a", "b", "c", "[a]", "[b :as x]", "[b :as y]", "(a b)", "[a :as x]", "c.d", "(c.d)", "[z y]", "(z x)", "1", "[[a]]", "\"b\"", ":b"}))
		}
		n = 0
	}
	for i := 0; i < n; i++ {
		b.WriteString(g.ws())
		if g.p(6) && !g.noPrefix {
			b.WriteString(g.pick([]string{"^:x ", "#_", "#_ #_ zz ", "#foo ", "#_^:a ", "#_;c\n", "#?(:clj [y]) ", "#?@(:clj [[y]]) "}))
		}
		switch {
		case g.p(4):
			b.WriteString(g.form(2))
		case g.p(5):
			b.WriteString(g.pick([]string{":reload", ":reload-all", ":verbose"}))
		case kind == "import":
			b.WriteString(g.importspec())
		case kind == "refer-clojure":
			b.WriteString(":exclude [f g]")
		default:
			b.WriteString(g.libspec())
		}
	}
	b.WriteString(g.optws())
	b.WriteString(c)
	return b.String()
}
