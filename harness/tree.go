package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/cespare/goclj/parse"
)

const fileName = "in.clj"

const fullOpts = parse.IncludeNonSemantic

// A readResult is what reading a text gave.
type readResult struct {
	tree  *parse.Tree
	err   error
	panic string // "" unless reading panicked
	hang  bool
}

// read parses src, containing panics of the calling goroutine and hangs. (A
// panic of the scanner's goroutine takes the process down; the driver runs the
// harness accordingly.)
func read(src string, opts parse.ParseOpts) readResult {
	return guard(func() (t *parse.Tree, err error) {
		return parse.Reader(strings.NewReader(src), fileName, opts)
	})
}

func guard(f func() (*parse.Tree, error)) readResult {
	ch := make(chan readResult, 1)
	go func() {
		var r readResult
		defer func() {
			if e := recover(); e != nil {
				r = readResult{panic: fmt.Sprint(e)}
			}
			ch <- r
		}()
		r.tree, r.err = f()
	}()
	t := time.NewTimer(8 * time.Second)
	defer t.Stop()
	select {
	case r := <-ch:
		return r
	case <-t.C:
		sawHang = true
		return readResult{hang: true}
	}
}

var errPosRE = regexp.MustCompile(`(?s)^(lex|parse) error at (.*?):(\d+):(\d+): (.*)$`)

// errInfo gives class, line, column and file name of a read error.
func errInfo(err error) []interface{} {
	msg := err.Error()
	m := errPosRE.FindStringSubmatch(msg)
	class := "other"
	if m == nil {
		// Some other format: look for name:line:col.
		m2 := regexp.MustCompile(`(\S*?):(\d+):(\d+)`).FindStringSubmatch(msg)
		if strings.Contains(msg, "EOF") {
			class = "eof"
		}
		if m2 == nil {
			return []interface{}{class, 0, 0, ""}
		}
		l, _ := strconv.Atoi(m2[2])
		c, _ := strconv.Atoi(m2[3])
		return []interface{}{class, l, c, m2[1]}
	}
	if strings.Contains(m[5], "EOF") && !strings.Contains(m[5], "unexpected token") {
		class = "eof"
	}
	l, _ := strconv.Atoi(m[3])
	c, _ := strconv.Atoi(m[4])
	return []interface{}{class, l, c, m[2]}
}

var errKinds = []string{"octal", "unicode", "character", "nest", "conditional", "map", "unreadable", "token"}

// errWhy tells what an error mentions, and the token it quotes.
func errWhy(err error) (why, tok []string) {
	msg := err.Error()
	if m := errPosRE.FindStringSubmatch(msg); m != nil {
		msg = m[5]
	}
	why, tok = []string{}, []string{}
	if i := strings.IndexByte(msg, '"'); i >= 0 {
		if q, err := strconv.QuotedPrefix(msg[i:]); err == nil {
			if s, err := strconv.Unquote(q); err == nil && knownText(s) {
				tok = mustAtoms(s)
				msg = msg[:i] + msg[i+len(q):]
			}
		}
	}
	if strings.Contains(msg, "EOF") {
		why = append(why, "eof")
	}
	for _, k := range errKinds {
		if strings.Contains(strings.ToLower(msg), k) {
			why = append(why, k)
		}
	}
	return why, tok
}

// A dumpedNode is a node in the preorder list of a tree.
type dumpedNode struct {
	kind string
	val  string
	nch  int
	pos  *parse.Pos
	char int // value of a character literal
}

func kindOf(n parse.Node) (kind, val string, pos *parse.Pos) {
	switch n := n.(type) {
	case *parse.BoolNode:
		return "bool", strconv.FormatBool(n.Val), n.Pos
	case *parse.CharacterNode:
		return "char", n.Text, n.Pos
	case *parse.CommentNode:
		return "com", n.Text, n.Pos
	case *parse.DerefNode:
		return "deref", "", n.Pos
	case *parse.FnLiteralNode:
		return "fn", "", n.Pos
	case *parse.KeywordNode:
		return "kw", n.Val, n.Pos
	case *parse.ListNode:
		return "list", "", n.Pos
	case *parse.MapNode:
		return "map", n.Namespace, n.Pos
	case *parse.MetadataNode:
		return "meta", "", n.Pos
	case *parse.NewlineNode:
		return "nl", "", n.Pos
	case *parse.NilNode:
		return "nil", "", n.Pos
	case *parse.NumberNode:
		return "num", n.Val, n.Pos
	case *parse.QuoteNode:
		return "quote", "", n.Pos
	case *parse.ReaderCondNode:
		return "rcond", "", n.Pos
	case *parse.ReaderCondSpliceNode:
		return "rconds", "", n.Pos
	case *parse.ReaderDiscardNode:
		return "discard", "", n.Pos
	case *parse.ReaderEvalNode:
		return "eval", "", n.Pos
	case *parse.RegexNode:
		return "regex", n.Val, n.Pos
	case *parse.SetNode:
		return "set", "", n.Pos
	case *parse.StringNode:
		return "str", n.Val, n.Pos
	case *parse.SymbolNode:
		return "sym", n.Val, n.Pos
	case *parse.SyntaxQuoteNode:
		return "squote", "", n.Pos
	case *parse.TagNode:
		return "tag", n.Val, n.Pos
	case *parse.UnquoteNode:
		return "unq", "", n.Pos
	case *parse.UnquoteSpliceNode:
		return "unqs", "", n.Pos
	case *parse.VarQuoteNode:
		return "varq", n.Val, n.Pos
	case *parse.VectorNode:
		return "vec", "", n.Pos
	}
	return fmt.Sprintf("%T", n), "", n.Position()
}

func dump(nodes []parse.Node) []dumpedNode {
	var out []dumpedNode
	var rec func(ns []parse.Node)
	rec = func(ns []parse.Node) {
		for _, n := range ns {
			k, v, p := kindOf(n)
			d := dumpedNode{kind: k, val: v, nch: len(n.Children()), pos: p, char: -1}
			if c, ok := n.(*parse.CharacterNode); ok {
				d.char = int(c.Val)
			}
			out = append(out, d)
			rec(n.Children())
		}
	}
	rec(nodes)
	return out
}

// jsonTree is the tree as [[kind, children, text], ...] and, separately, the
// positions [[offset, line, column], ...] and the values of the characters.
func jsonTree(nodes []parse.Node) (tree, pos []interface{}, chars []int, named bool) {
	return jsonTreeOf(nodes, fileName)
}

func jsonTreeOf(nodes []parse.Node, path string) (tree, pos []interface{}, chars []int, named bool) {
	tree, pos, chars = []interface{}{}, []interface{}{}, []int{}
	named = true
	for _, d := range dump(nodes) {
		tree = append(tree, []interface{}{d.kind, d.nch, mustAtoms(d.val)})
		if d.pos == nil {
			pos = append(pos, []int{-1, -1, -1})
			named = false
		} else {
			pos = append(pos, []int{d.pos.Offset, d.pos.Line, d.pos.Col})
			named = named && d.pos.Name == path
		}
		if d.char >= 0 {
			chars = append(chars, d.char)
		}
	}
	return
}
