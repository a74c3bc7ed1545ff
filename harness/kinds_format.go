package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// nonZero makes a record out of a case if there is one.
func caseOrNil(c fmtCase, ok bool) interface{} {
	if !ok {
		return nil
	}
	return &c
}

// layoutTemplates lay out a name in several surroundings.
var layoutTemplates = []string{
	"(N a b\nc d\ne\nf)",
	"(N\na\nb\nc d)",
	"(N [a\nb c\nd :let [e\nf] :let\n[g\nh]] i\nj)",
	"(N [(a [b]\nc)] (d\ne)\n(f\ng))",
	"(N a ;c\nb\n;d\nc)",
	"(N ;c\na\nb)",
	"(N a\nb\n:>>\nc\nd\ne\nf\ng)",
	"(N a (b\nc) [d\ne]\n\n\nf\n;g\n\nh)",
	"(N ^:x [a\nb] #_c\nd e\nf)",
	"(-> x (N a\nb c\nd\ne) f)",
	"(cond-> x a (N b\nc d\ne) f (N\ng\nh))",
	"#(N a\nb\n(N c\nd))",
	"(zz/N a\nb\nc\nd)",
	"{N a\nb\nc}",
	"[N a\nb]",
	"'(N\na\nb)",
	"#?(:clj (N a\nb)\n:cljs\nN)",
	"(def N \"a\n  b\" 1)",
	"(N x \"doc\n  more\" y)",
	"(xN a\nb\nc)",
	"(Nx a\nb\nc)",
	"(:N a\nb\nc)",
	"(let [N\na\n\nb\nN c]\nN)",
	"(case x\nN\na\n(N)\nb)",
}

// linkTemplates define a name that is used later.
var linkTemplates = []string{
	"(defmacro qq [a & N] a)\n(qq a\nb\nc)",
	"(defmacro qq {:N 1} [N] a)\n(qq a\nb\nc)",
	"(N qq [a & body] a)\n(qq a\nb\nc)",
	"(defmacro N [a & body] a)\n(N a\nb\nc)",
	"(def ^{:N 2} qq 1)\n(qq a\nb\nc)\n(-> x (qq a\nb))",
	"(N '[a.b :as qq])\n(qq/let a\nb\nc)\n(qq/foo a\nb)",
}

func layoutFixed(v *vocab, thorough bool, f func(string)) {
	names := append(append([]string{}, headSyms...), v.syms...)
	for _, k := range v.kws {
		names = append(names, k)
	}
	seen := map[string]bool{}
	for i, n := range names {
		if seen[n] {
			continue
		}
		seen[n] = true
		known := i < len(headSyms)
		for j, t := range layoutTemplates {
			// All names are laid out with some templates; quick runs
			// vary these.
			if thorough || known && j < 8 || (i+j)%5 == 0 {
				f(strings.Replace(t, "N", n, -1))
			}
		}
		for j, t := range linkTemplates {
			if thorough || !known || (i+j)%3 == 0 {
				f(strings.Replace(t, "N", n, -1))
			}
		}
	}
	for _, n := range append([]int{12}, v.ints...) {
		for k := n - 1; k <= n+1 && k < 80; k++ {
			x := strings.Repeat("x", k)
			f("(" + x + " ;c\na\nb)")
			f("(" + x + " a\nb)")
			f("(" + x + "\na\nb)")
			f("(" + x + " ^:m\na\nb)")
			f("[" + strings.Repeat("a ", k) + "\nb]")
			f("(cond" + strings.Repeat(" a", k) + "\nb\nc)")
			f("(foo" + strings.Repeat("\na", k) + ")")
			f(strings.Repeat("(a\n", k) + strings.Repeat(")", k))
			f(strings.Repeat("[", k) + "a\nb" + strings.Repeat("]", k))
			f("{" + strings.Repeat("a\n", k) + "b\nc}")
			f("(def d \"a\n" + strings.Repeat(" ", k) + "b\" 1)")
			f("(a" + strings.Repeat("\n", k) + "b" + strings.Repeat("\n", k) + ")" + strings.Repeat("\n", k) + "c")
		}
	}
	shapes(thorough, f)
	operandFixed("layout", 4, thorough, f)
	for _, s := range v.seeds {
		f(s)
	}
}

// shapes lists the contents of forms with special layouts systematically.
func shapes(thorough bool, f func(string)) {
	n := 4
	if thorough {
		n = 5
	}
	wrap := func(forms []string, pieces []string, n int) {
		i := 0
		exhaustive(pieces, 2, n, func(s string) {
			if !strings.Contains(s, "\n") {
				return
			}
			i++
			for j, w := range forms {
				if thorough || (i+j)%len(forms) == 0 || len(s) < 8 {
					f(strings.Replace(w, "@", s, 1))
				}
			}
		})
	}
	wrap([]string{"(for [@] q)", "(doseq [@]\nq)", "(let [@] q)", "(foo [@] q)"},
		[]string{":let ", "[a\nb\nc] ", "x ", "\n", "^m ", ";c\n"}, n)
	wrap([]string{"(cond @)", "(case @)", "(condp @)", "(foo @)", "{@}", "(let @)", "(cond-> @)", "(-> x (cond @))", "(cond-> x @)"},
		[]string{"a ", "\n", ":>> ", ";c\n", "^m ", "(b\nc) "}, n)
	wrap([]string{"(letfn [@] q)", "(deftype @)", "(when @)", "(reify @)", "(letfn @)", "(defn @)"},
		[]string{"a ", "\n", ";c\n", "(b [d]\nc) ", "[a\nb] ", "^m "}, n)
}

// anyNode has a text for every kind of node.
var anyNode = []string{"y ", ":k ", "1 ", "nil ", "true ", "\\c ", "#\"r\" ", "#'v ", "#t ", "^m ", "#_d ", "'q ", "`q ", "~q ", "@q ", "~@q ", "#=q ", "(f) ", "[a] ", "{} ", "#{} ", "#(f) ",
	"#?(:a b) ", "#?@(:a b) ", "#:a{} ", ";c\n", "\n"}

func mixed(gs ...func(g *Gen) string) func(g *Gen) string {
	return func(g *Gen) string { return gs[g.n(len(gs))](g) }
}

func (g *Gen) randomOverrides(name func() string) map[string]string {
	m := map[string]string{}
	for i, n := 0, 1+g.n(4); i < n; i++ {
		m[name()] = styleNames[g.n(len(styleNames))]
	}
	return m
}

func init() {
	off := onlyTransforms()
	layoutText := mixed((*Gen).Calls, (*Gen).Calls, (*Gen).Linked, (*Gen).Small, (*Gen).File, (*Gen).ThreadFirst, (*Gen).Docs)
	kinds["layout"] = &kind{text: layoutText, fixed: layoutFixed, maxLen: 700,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := off
			if r.Intn(20) == 0 {
				set.ic = []rune{'\t', '.', ' '}[r.Intn(3)]
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}
	kinds["over"] = &kind{text: (*Gen).Overrides, maxLen: 700,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, a := range ovMacros {
				for _, p := range []string{"", "s/", "a.b/", "foo/", "zz/"} {
					for _, rq := range []string{"[a.b :as s]", "[a.b :refer [" + a + "]]", "[foo :as s :refer-macros [" + a + "]]", "(a.b :as s)", "a.b"} {
						for _, kw := range []string{":require", ":require-macros"} {
							f("(ns n (" + kw + " " + rq + "))\n(" + p + a + " [a\nb\nc]\nd\n(e [f]\ng)\nh)")
						}
					}
				}
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := off
			set.over = g.randomOverrides(g.ovName)
			if r.Intn(4) == 0 {
				set.over = g.randomOverrides(func() string {
					if r.Intn(2) == 0 {
						return g.pick(headSyms)
					}
					return g.ovName()
				})
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}
	kinds["thread"] = &kind{text: (*Gen).ThreadFirst, maxLen: 700,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			operandFixed("thread", 3, thorough, f)
			for _, h := range tfHeads {
				for _, c := range condHeads {
					f(fmt.Sprintf("(%s x\n(%s a\nb\nc\nd\ne)\n(%[2]s f\ng\nh\ni))", h, c))
					f(fmt.Sprintf("(%s x (%s a\nb\nc d) y\n;c\n(%[2]s\nf\ng\nh))", h, c))
					f(fmt.Sprintf("(%s x\n(-> (%s a\nb\nc)\n(%[2]s f\ng))\n(cond-> y\n(%[2]s a\nb\nc)))", h, c))
					f(fmt.Sprintf("(%s (%s a\nb\nc)\n#_(%[2]s a\nb)\n^:x (%[2]s a\nb)\n[(%[2]s a\nb)] (%[2]s a\nb))", h, c))
				}
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := off
			if r.Intn(2) == 0 {
				set.tf = map[string]string{}
				for i, n := 0, 1+r.Intn(3); i < n; i++ {
					set.tf[g.pick(tfHeads)] = []string{"normal", "cond->"}[r.Intn(2)]
				}
			}
			if r.Intn(4) == 0 {
				set.over = map[string]string{g.pick(condHeads): styleNames[r.Intn(len(styleNames))]}
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}
	kinds["tokens"] = &kind{text: mixed((*Gen).Small, (*Gen).File, (*Gen).Docs, (*Gen).Soup, (*Gen).NS), fixed: layoutFixed, maxLen: 500,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := off
			if r.Intn(4) == 0 {
				set.over = g.randomOverrides(func() string { return g.pick(headSyms) })
			}
			if r.Intn(6) == 0 {
				set.ic = '\t'
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}
	kinds["docs"] = &kind{text: mixed((*Gen).Docs, (*Gen).Docs, (*Gen).Docs, (*Gen).Def), maxLen: 500,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			// Every kind of node before and after a string.
			operandFixed("docs", 2, thorough, f)
			heads := []string{"def", "defn", "defmacro", "defmulti", "ns"}
			str := "\"a\n b\" "
			i := 0
			exhaustive(append([]string{str}, anyNode...), 1, 3, func(s string) {
				if n := strings.Count(s, str); n == 0 || n == 1 && len(s) > 24 && !thorough {
					return
				}
				i++
				f("(" + heads[i%len(heads)] + " x " + s + ")")
			})
			for _, h := range append(heads, "defn-", "defonce", "defmethod", "defprotocol", "definline", "s/defn", "let", "fn", "defrecord") {
				for _, x := range append([]string{""}, anyNode...) {
					for _, y := range append([]string{""}, anyNode...) {
						if len(x)+len(y) < 6 || x == "" || y == "" {
							f("(" + h + " " + x + str + y + ")")
							f("(" + h + " z " + x + str + y + "\n\"c\nd\")")
						}
					}
				}
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := off
			if r.Intn(6) == 0 {
				set.ic = '\t'
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}

	nsText := func(g *Gen) string {
		switch g.n(6) {
		case 0:
			return g.NS() + g.ws() + g.File()
		case 1:
			return g.clause()
		case 2:
			return g.File()
		default:
			return g.NS()
		}
	}
	single := func(name string, text func(g *Gen) string) {
		set := onlyTransforms(name)
		kinds[name] = &kind{text: text, maxLen: 600,
			fixed: func(v *vocab, thorough bool, f func(string)) {
				transformFixed(name, v, thorough, f)
				operandFixed(name, 2, thorough, f)
				for _, s := range v.seeds {
					f(s)
				}
			},
			record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
				return caseOrNil(makeFmtCase(id, s, set))
			}}
	}
	single("sort", nsText)
	single("style", nsText)
	single("use", nsText)
	single("unused", (*Gen).Unused)
	single("trailing", mixed((*Gen).Small, (*Gen).File, (*Gen).Blank))
	single("blank", mixed((*Gen).Small, (*Gen).File, (*Gen).Blank))
	single("defn", mixed((*Gen).Def, (*Gen).Defs, (*Gen).Defs))
	single("defmethod", mixed((*Gen).Def, (*Gen).Defs, (*Gen).Defs))
	single("if", mixed((*Gen).If, (*Gen).If, (*Gen).Calls))

	anyText := mixed((*Gen).NS, (*Gen).Linked, nsText, (*Gen).File, (*Gen).Small, (*Gen).Defs, (*Gen).If, (*Gen).Calls, (*Gen).Docs, (*Gen).Blank)
	subset := func(r *rand.Rand, names []string) map[string]bool {
		m := map[string]bool{}
		for _, n := range names {
			m[n] = r.Intn(4) > 0
		}
		return m
	}
	defaults := transformNames[:7]
	kinds["sem"] = &kind{text: anyText, maxLen: 500,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, t := range transformNames[:7] {
				transformFixed(t, v, false, f)
				operandFixed(t, 5, thorough, f)
			}
			for _, s := range v.seeds {
				f(s)
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := settings{}
			if r.Intn(2) == 0 {
				set.on = subset(r, defaults)
			}
			if r.Intn(6) == 0 {
				set.over = g.randomOverrides(func() string { return g.pick(headSyms) })
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}
	kinds["idem"] = &kind{text: anyText, maxLen: 500, fixed: kinds["sem"].fixed,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := settings{}
			if r.Intn(2) == 0 {
				set.on = subset(r, defaults)
			}
			if r.Intn(5) == 0 {
				set.over = g.randomOverrides(func() string { return g.pick(headSyms) })
			}
			if r.Intn(8) == 0 {
				set.ic = '\t'
			}
			c, ok := makeFmtCase(id, s, set)
			if !ok {
				return nil
			}
			c.formatAgain(set)
			return &c
		}}
	kinds["toggle"] = &kind{text: mixed(anyText, anyText, (*Gen).Overrides, (*Gen).ThreadFirst, (*Gen).Unused), maxLen: 500,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, t := range transformNames {
				transformFixed(t, v, false, f)
				operandFixed(t, 8, thorough, f)
			}
			operandFixed("layout", 8, thorough, f)
			operandFixed("docs", 8, thorough, f)
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := settings{}
			switch r.Intn(6) {
			case 4, 5:
				set = settingsFor(s, r, g, transformNames)
			case 0:
				set.on = subset(r, transformNames)
			case 1: // some are not mentioned
				set.on = subset(r, transformNames)
				for _, n := range transformNames {
					if r.Intn(2) == 0 {
						delete(set.on, n)
					}
				}
			case 2: // one differs from the default
				n := g.pick(transformNames)
				set.on = map[string]bool{n: !defaultOn(n)}
			}
			return caseOrNil(makeFmtCase(id, s, set))
		}}
}

func init() {
	for n, k := range kinds {
		if k.replay == nil && n != "read" && n != "opts" {
			k.replay = replayFmt(n == "idem")
		}
	}
}

func defaultOn(n string) bool { return n != "use" && n != "unused" }
