package main

import "strings"

// transformFixed lists systematic texts for a transform.
func transformFixed(name string, v *vocab, thorough bool, f func(string)) {
	n := 3
	if thorough {
		n = 4
	}
	switch name {
	case "sort", "style", "use", "unused":
		pieces := map[string][]string{
			"sort":   {"b ", "[a :as x]", ";c\n", "\n", "^:m ", "#_z ", "(c)", "1 ", "[b]"},
			"style":  {"b ", "[a :as x]", ";c\n", "\n", "(c (d) [e])", "a.B ", "1 ", "[p Q]", "'x "},
			"use":    {"b ", "[a :as x]", ";c\n", "\n", "(b :only [f])", "[a :refer [g]]", "[c]", ":k ", "^:m ", "[b :as y]", ") (:use ", ") (:require "},
			"unused": {"b ", "[a :as x]", ";c\n", "\n", "[b :refer [f g]]", "[c]", ":k ", "[d :as q :refer [h]]", "#_ "},
		}[name]
		heads := map[string][]string{
			"sort":   {":require", ":import", ":require-macros", ":use"},
			"style":  {":require", ":import", "require", ":use", ":gen-class", ":refer-clojure", ":foo"},
			"use":    {":require", ":use"},
			"unused": {":require", ":require-macros"},
		}[name]
		exhaustive(pieces, 0, n, func(s string) {
			for i, h := range heads {
				if i < 2 || len(s) < 12 {
					f("(ns n (" + h + " " + s + "))\n(x/f g)")
				}
			}
		})
		if name == "style" {
			for _, a := range []string{"a", "a.b", "nil", "true", "a'", ".", "a.", "", "é", "-", "a/b", "a.b/c"} {
				for _, b := range []string{"B", "nil", "true", "false", "Nil", "nilx", "_B", "$B", "1B", "-B", "+B", "b", "é", "", "*", "'", "%B", "λ", "B.", ".B", "B/C", "/C", "B$C", "世"} {
					x := a + "." + b
					f("(ns n (:import " + x + " (" + x + ") [" + x + " " + b + "]))")
					f("(ns n (:require " + x + " (" + x + ")))")
				}
			}
		}
		// Clauses that are none.
		for _, h := range heads {
			for _, o := range []string{"{@}", "#{@}", "#(@)", "[@]", "(@)", "#?(@)", "#?@(@)", "#:a{@}", "'(@)", "#_(@)", "^(@) x", "@(@)", "~(@)", "~@[@]", "#=(@)", "#t (@)", "((@))", "([@])", "(x @)", "(#_x @)", "(;c\n@)", "(\n@)", "(^x @)", "(^x\n@)"} {
				for _, in := range []string{" b a", " b", "", " [b :as x] a", " (b a)"} {
					x := strings.Replace(o, "@", h+in, 1)
					f("(ns n " + x + ")\n(x/f g)")
					if in != "" {
						f("(ns n\n" + x + "\n(" + h + " d c)\n(:require f)\n" + x + ")")
						f("(ns " + x + " (" + h + " d c))")
					}
				}
			}
		}
		// Brackets within brackets.
		k := 0
		exhaustive([]string{"(", "[", "{", "#{", "'("}, 1, n+1, func(s string) {
			open := strings.NewReplacer("(", "(a b ", "[", "[c d ", "#{", "#{e f ", "{", "{g h ").Replace(s)
			shut := ""
			for i := len(s) - 1; i >= 0; i-- {
				if j := strings.IndexByte("([{", s[i]); j >= 0 {
					shut += ")]}"[j : j+1]
				}
			}
			k++
			f("(ns n (" + heads[k%2] + " " + open + shut + "))\n(x/f g)")
			f("(ns n (" + heads[(k/2)%2] + " " + s + shut + " [z :as y]))\n(y/f g)")
		})
		if name == "use" || name == "unused" {
			// Entries of the same library. (The code uses some of the
			// names.)
			same := []string{"b ", "[b] ", "[b :as p] ", "[b :as q :refer [x]] ", "[b :refer [y u]] ", "[b :refer (z x)] ", "[b :refer :all] ",
				"[b :refer-macros [m]] ", "[b :refer-macros [n] :refer [v]] ", "(b :only [w]) ", "[c] ", ";c\n", ") (:require ", ") (:use ", ") (:require-macros "}
			k := 0
			exhaustive(same, 2, n, func(s string) {
				k++
				f("(ns n (" + heads[k%len(heads)] + " " + s + "))\n(p/f x z m v)")
			})
		}
		for _, k := range append(append([]string{}, v.kws...), ":require", ":use", ":import", ":load", ":gen-class", ":refer-clojure", ":require-macros", ":use-macros", ":refer", ":x") {
			for _, o := range []string{"()", "[]"} {
				f("(ns n " + o[:1] + k + " b.C [a.b D] (e f)" + o[1:] + ")\n(x y)")
				f("(ns n " + o[:1] + k[1:] + " b.C [a.b D] (e f)" + o[1:] + ")\n(x y)")
				f("(ns n " + o[:1] + k + "\nb.C\n[a.b D]" + o[1:] + " " + o[:1] + k + o[1:] + ")")
			}
			f("(ns n (:require [z " + k + " q] [y " + k + " [r]] " + k + " [a]))\n(q/x r)")
			f("(ns n (:use [z " + k + " q] [y " + k + " [r]] " + k + " [a]))\n(q/x r)")
		}
	case "trailing", "blank":
		pieces := []string{"a", "\n", ";c\n", "(", ")", " ", "[", "]"}
		exhaustive(pieces, 2, n+2, func(s string) {
			if strings.Count(s, "\n") > 0 && strings.Count(s, "(") == strings.Count(s, ")") && strings.Count(s, "[") == strings.Count(s, "]") {
				f(s)
			}
		})
		for _, o := range []string{"()", "[]", "{}", "#{ }", "#()", "#?()", "#?@()", "#:a{}"} {
			i := len(o) - 1
			for _, in := range []string{"a b\n", "a b\n\n\n", "a\n\n\n\nb", "a b ;c\n", "a b ;c\n\n", "\n", "\n\n\n", "\n\n\na b", "a b\n;c\n\n\n\n;d\n\n\n"} {
				f(o[:i] + in + o[i:])
				f("(x " + o[:i] + in + o[i:] + "\n\n\ny\n)\n\n\n\nz\n\n\n")
				f("^" + o[:i] + in + o[i:] + " '" + o[:i] + in + o[i:])
			}
		}
	case "defn", "defmethod":
		pieces := []string{" foo", "\n", " [a]", " :k", ";c\n", " x", " ^:m"}
		exhaustive(pieces, 2, n+1, func(s string) { f("(" + name + s + ")") })
		for _, h := range append(append([]string{}, headSyms...), v.syms...) {
			f("(" + h + " foo\n[a] x)")
			f("(" + h + " foo\n:k [a] x)")
			f("(" + h + " foo\n:k\n[a] x)")
		}
	case "if":
		pieces := []string{" a", "\n", ";c\n", " ^:m", " #_x", " (b\nc)"}
		exhaustive(pieces, 2, n+1, func(s string) { f("(if" + s + ")") })
		for _, h := range append(append([]string{}, headSyms...), v.syms...) {
			f("(" + h + " foo\na b)")
			f("(" + h + " foo a\nb)")
			f("(x (" + h + " [foo\nq] a\n\nb c))")
		}
	}
}

// operandContexts have a place (@) for forms with prefixes, by kind.
var operandContexts = map[string][]string{
	"read":      {"@", "(@)", "[b @ ^q w]", "#_ @ u", "#=@"},
	"opts":      {"#_ @ u", "(@)", "#_ #_ @ u v", "^ @ u", "(comment @)", "@", "#t #_@ v"},
	"sort":      {"(ns n (:require z @ b))", "(ns n @ (:require b a))", "(@ ns n (:import b a))", "(ns n (@ :require b a))"},
	"style":     {"(ns n (:require z @ b))", "(ns n @ (:require b a))", "(ns n (:require [z @] (y @)))", "(ns n (:import (z @)))"},
	"use":       {"(ns n (:use z @ b))", "(ns n @ (:use b a) (:require c))", "(ns n (:use [z @]))", "(ns n (:use [z :only [@]]))", "(ns n (@ :use b) (:use @))"},
	"unused":    {"(ns n (:require z @ b))", "(ns n @ (:require b a))", "(ns n (:require [z :as m @]))\n(x/f u)", "(ns n (:require [z :refer [@ q]]))\n(x y)", "(ns n (:require [z :as m]))\n@"},
	"trailing":  {"(b @\n)", "(b\n@\n\n)"},
	"blank":     {"(b\n\n\n@\n\n\nc)", "b\n\n\n@"},
	"defn":      {"(defn f @ [a]\nb)", "(defn f\n@ [a] b)", "(defn @ f\n[a] b)", "(@ defn f\n[a] b)"},
	"defmethod": {"(defmethod f @ :k [a]\nb)", "(defmethod f\n@ :k [a] b)", "(defmethod @ f\n:k\n[a] b)"},
	"if":        {"(if @\nb c)", "(if b @\nc)", "(if b\n@ c)", "(if b c\n@)"},
	"docs":      {"(def x \"a\n  b\" @)", "(def @ x \"a\n b\" c)", "(def x @ \"a\n b\" c)", "(def x \"a\n b\"\n@ #_ c)", "(defn x \"a\n b\" #_ @)"},
	"layout":    {"(cond @\nx\ny\nz)", "(let [@\nb\nc] d)", "{@\nx\ny}", "(@\nx\ny)", "(for [a b :let @ [c\nd]] e)", "(case b @\nc\nd)", "(letfn @ [(b c\nd)]\ne)", "(f\n@\ng)"},
	"thread":    {"(-> b @ (cond a\nb\nc))", "(cond-> b @ (cond a\nb\nc))", "(-> @ (cond a\nb\nc) (cond a\nb\nc))", "(-> b (@ cond a\nb\nc))"},
}

// operandFixed lists forms with chains of prefixes systematically.
func operandFixed(name string, stride int, thorough bool, f func(string)) {
	prefixes := []string{"^", "#_", "#=", "'", "`", "~", "~@", "@", "#^", "#t "}
	n := 2
	if thorough {
		n = 3
	}
	i := 0
	exhaustive(prefixes, 1, n, func(s string) {
		for _, end := range []string{"m ", ";c\n", "\n", "#_d ", "#t ", "(q) "} {
			for k, rest := range []string{"", " x y", " x", " (:require c b) [z]"} {
				if k > 1 && len(s) > 1 && (i+k)%3 > 0 {
					continue
				}
				i++
				for j, c := range operandContexts[name] {
					if (i+j)%stride == 0 {
						f(strings.Replace(c, "@", s+end+rest, 1))
					}
				}
			}
		}
	})
}
