package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/cespare/goclj/parse"
)

type readCase struct {
	Id    int           `json:"id"`
	T     []string      `json:"t"`
	Ok    bool          `json:"ok"`
	Tree  []interface{} `json:"n"`
	Pos   []interface{} `json:"p"`
	Chars []int         `json:"c"`
	Err   []interface{} `json:"e"`
	Why   []string      `json:"why"` // kinds of faults that the error mentions
	Tok   []string      `json:"tok"` // token quoted in the error
	Opt   []bool        `json:"opt"` // keep comments and newlines, ignore comment forms, ignore discards
}

func makeReadCase(id int, s string, opts parse.ParseOpts) *readCase {
	c := &readCase{Id: id, T: mustAtoms(s), Tree: []interface{}{}, Pos: []interface{}{}, Chars: []int{}, Err: []interface{}{}}
	c.Opt = []bool{opts&parse.IncludeNonSemantic != 0, opts&parse.IgnoreCommentForm != 0, opts&parse.IgnoreReaderDiscard != 0}
	c.fill(read(s, opts), fileName)
	return c
}

// fill says what reading gave. The file name is known to the specification as
// in.clj.
func (c *readCase) fill(r readResult, path string) {
	c.Tree, c.Pos, c.Chars, c.Err = []interface{}{}, []interface{}{}, []int{}, []interface{}{}
	c.Ok = false
	c.Why, c.Tok = []string{}, []string{}
	if r.err != nil {
		c.Why, c.Tok = errWhy(r.err)
	}
	switch {
	case r.hang:
		c.Err = []interface{}{"hang", 0, 0, ""}
	case r.panic != "":
		c.Err = []interface{}{"panic", 0, 0, ""}
	case r.err != nil:
		c.Err = errInfo(r.err)
		if c.Err[3] == path {
			c.Err[3] = fileName
		}
		if r.tree != nil {
			c.Err[0] = "tree and error"
		}
	case r.tree == nil:
		c.Err = []interface{}{"no tree", 0, 0, ""}
	default:
		c.Ok = true
		var named bool
		c.Tree, c.Pos, c.Chars, named = jsonTreeOf(r.tree.Roots, path)
		name := ""
		if named {
			name = fileName
		}
		c.Err = []interface{}{"", 0, 0, name}
	}
}

var readAlphabet = []string{"a", "1", "+", "(", ")", "[", "]", "{", "}", "#", "'", "@", "~", "^", "_", ":", ";", "\n", " ", "\\", "\"", "?", "o", "=", "!", "<", "`", "%", ","}
var smallAlphabet = []string{"a", "(", ")", "{", "}", "#", "@", "~", "^", "_", ":", ";", "\n", " ", "\\", "\"", "?"}

func readFixed(v *vocab, thorough bool, f func(string)) {
	exhaustive(readAlphabet, 0, 2, f)
	if thorough {
		exhaustive(readAlphabet, 3, 3, f)
		exhaustive(smallAlphabet, 4, 4, f)
	} else {
		exhaustive(smallAlphabet, 3, 3, f)
	}
	operandFixed("read", 2, thorough, f)
	digits := []string{"0", "1", "7", "8", "f", "-", "g"}
	exhaustive(digits, 2, 4, func(s string) {
		if thorough || len(s) < 4 || s[0] == s[1] || s[2] == s[3] {
			f("\\u" + s)
			f("\\o" + s)
		}
	})
	for _, c := range append(append([]string{}, chars...), badChars...) {
		f(c)
		f("(" + c + ")")
		f("[a " + c + "]")
	}
	// Every character of the alphabet in every token.
	for _, r := range runeList {
		for _, t := range []string{"", "a", ":", "1", "-", "\\", "#", "\"", ";", "#?", "\\u004", "~", "\\new"} {
			f(t + string(r))
			f(t + string(r) + "a")
		}
	}
	for _, l := range tokensOfLengths(v) {
		f(l)
	}
	for _, s := range v.seeds {
		f(s)
	}
}

// tokensOfLengths has tokens of lengths around the sizes that the code
// mentions.
func tokensOfLengths(v *vocab) []string {
	var out []string
	for _, n := range append([]int{32, 64}, v.ints...) {
		if n > 300 {
			continue
		}
		for _, k := range []int{n - 1, n, n + 1} {
			x := strings.Repeat("x", k)
			out = append(out, x, ":"+x, "\""+x+"\"", ";"+x+"\na", "\\"+x, "1"+x, "#"+x+" y", strings.Repeat("(", k)+strings.Repeat(")", k),
				strings.Repeat("\n", k)+"a", strings.Repeat(" ", k)+"a", strings.Repeat("a ", k), "["+strings.Repeat("é", k)+" b]")
		}
	}
	return out
}

func init() {
	text := func(g *Gen) string {
		switch g.n(40) {
		case 0:
			return "\uFEFF" + g.Small()
		}
		switch g.n(10) {
		case 0, 1, 2:
			return g.Soup()
		case 3, 4, 5:
			return g.Lexemes()
		default:
			return g.Small()
		}
	}
	replayRead := func(id int, b []byte) interface{} {
		var c readCase
		if err := json.Unmarshal(b, &c); err != nil {
			fatal(err)
		}
		var opts parse.ParseOpts
		for i, o := range []parse.ParseOpts{parse.IncludeNonSemantic, parse.IgnoreCommentForm, parse.IgnoreReaderDiscard} {
			if c.Opt[i] {
				opts |= o
			}
		}
		return makeReadCase(id, unatoms(c.T), opts)
	}
	kinds["read"] = &kind{text: text, fixed: readFixed, maxLen: 350, replay: replayRead,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} { return makeReadCase(id, s, fullOpts) }}
	kinds["opts"] = &kind{
		text: func(g *Gen) string {
			s := text(g)
			if g.p(50) {
				s = strings.Replace(s, "("+g.pick(headSyms), "(comment", 1)
			}
			if g.p(30) {
				s = "(" + g.pick([]string{"comment", "comment ", "\ncomment", ";c\ncomment", "#_x comment", "^:x comment", "'comment", "comment/x", "commentx"}) + " " + s + ")"
			}
			if g.p(30) {
				s = g.pick([]string{"#_", "#_ ", "#_#_", "#_ ^", "#_ #t ", "'#_", "#_;c\n", "^#_ a ", "#t #_ a ", "#_\n", "#=#_", "#_'"}) + s
			}
			return s
		},
		fixed: func(v *vocab, thorough bool, f func(string)) {
			toks := []string{"a ", "#_ ", "^ ", "#t ", ";c\n", "\n", "(comment ", ")", "(", "'", "#="}
			n := 3
			if thorough {
				n = 5
			}
			exhaustive(toks, 1, n, f)
			operandFixed("opts", 1, thorough, f)
			operandFixed("opts", 3, thorough, func(s string) { f(s + " ") })
			exhaustive(toks, 1, n-1, func(s string) { f("(" + s + "b)") })
			for _, s := range v.seeds {
				f(s)
			}
		},
		maxLen: 300, replay: replayRead,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			return makeReadCase(id, s, parse.ParseOpts(r.Intn(8)))
		}}
}
