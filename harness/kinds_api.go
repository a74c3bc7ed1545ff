package main

import (
	"encoding/json"
	"errors"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/cespare/goclj"
	"github.com/cespare/goclj/parse"
)

//
// C32: parse.File.
//

type fileCase struct {
	readCase
	How  string `json:"how"`  // what the name stands for
	Name string `json:"name"` // the last part of the name
	Rel  bool   `json:"rel"`  // a name relative to the working directory
	Fds  int    `json:"fds"`  // descriptors that are open after but not before
	Sep  int    `json:"sep"`  // length of the pieces in which a pipe delivers
}

var fileDir string

var fdsSeen int // cases with descriptors left open

func openFds() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		fatal(err)
	}
	return len(es)
}

func makeFile(c fileCase) *fileCase {
	s := unatoms(c.T)
	if fileDir == "" {
		d, err := os.MkdirTemp("", "verif-file")
		if err != nil {
			fatal(err)
		}
		fileDir = d
		if err := os.Chdir(d); err != nil {
			fatal(err)
		}
		read("a", fullOpts)
		if _, err := os.ReadFile(os.Args[0]); err != nil {
			fatal(err)
		}
	}
	dir, err := os.MkdirTemp(fileDir, "f")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, c.Name)
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	done := make(chan bool, 1)
	before := openFds()
	switch c.How {
	case "file":
		must(os.WriteFile(path, []byte(s), 0o644))
	case "link":
		must(os.WriteFile(filepath.Join(dir, "target"), []byte(s), 0o600))
		must(os.Symlink("target", path))
	case "missing":
	case "dangling":
		must(os.Symlink("nowhere", path))
	case "loop":
		must(os.Symlink(c.Name, path))
	case "dir":
		must(os.Mkdir(path, 0o755))
	case "under":
		must(os.WriteFile(path, []byte(s), 0o644))
		path += "/x"
	case "empty":
		path = ""
	case "nul":
		path += "\x00"
	case "pipe":
		must(syscall.Mkfifo(path, 0o600))
		go func() {
			defer func() { done <- true }()
			f, err := os.OpenFile(path, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer f.Close()
			for b := s; len(b) > 0; {
				k := c.Sep
				if k <= 0 || k > len(b) {
					k = len(b)
				}
				if _, err := f.WriteString(b[:k]); err != nil {
					return
				}
				b = b[k:]
			}
		}()
	}
	if c.Rel && path != "" {
		path = "./" + strings.TrimPrefix(path, fileDir+"/")
	}
	var opts parse.ParseOpts
	for i, o := range []parse.ParseOpts{parse.IncludeNonSemantic, parse.IgnoreCommentForm, parse.IgnoreReaderDiscard} {
		if c.Opt[i] {
			opts |= o
		}
	}
	r := guard(func() (*parse.Tree, error) { return parse.File(path, opts) })
	c.fill(r, path)
	if c.How == "pipe" {
		select {
		case <-done:
		case <-time.After(10 * time.Second):
		}
	}
	// A read that was under way when the file was closed may take a moment.
	for i := 0; i < 60 && (fdsSeen < 8 || i < 2); i++ {
		if c.Fds = openFds() - before; c.Fds == 0 {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if c.Fds != 0 {
		fdsSeen++
	}
	if r.err != nil && r.tree == nil {
		var pe *fs.PathError
		if errors.As(r.err, &pe) && pe.Path == path || strings.Contains(r.err.Error(), syscall.EISDIR.Error()) {
			c.Err[0] = "system"
		}
	}
	return &c
}

func init() {
	names := []string{"a.clj", "in", "a b.clj", "x:1:2.clj", "é.cljs", "-", "-x", ".clj", "%d", "a\nb", "世.clj", "..."}
	hows := []string{"file", "file", "file", "link", "pipe", "missing", "dangling", "loop", "dir", "under", "empty", "nul"}
	kinds["file"] = &kind{text: func(g *Gen) string { return kinds["read"].text(g) }, maxLen: 9000,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, s := range []string{"", "a", "\n", "(", ")", "\"", "\\", "#", "(a", "\\xyz", ";c", "\uFEFFa", "a\x00b"} {
				for i := 0; i < 20; i++ {
					f(s + strings.Repeat(" ", i))
				}
			}
			for _, n := range []int{4095, 4096, 4097, 8000} {
				f(strings.Repeat("a", n))
				f(strings.Repeat("a ", n/2) + ")")
				f(strings.Repeat("\n", n) + "(")
			}
			for _, s := range v.seeds {
				f(s)
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			c := fileCase{How: hows[r.Intn(len(hows))], Name: names[r.Intn(len(names))], Rel: r.Intn(2) == 0}
			if c.How == "pipe" {
				c.Sep = r.Intn(8)
			}
			c.Id, c.T = id, mustAtoms(s)
			o := r.Intn(8)
			c.Opt = []bool{o&1 != 0, o&2 != 0, o&4 != 0}
			if len(s) > 1000 && r.Intn(3) > 0 {
				c.How = "file"
			}
			return makeFile(c)
		},
		replay: func(id int, b []byte) interface{} {
			var c fileCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			c.Id = id
			return makeFile(c)
		}}
}

//
// C33: what nodes and trees look like as text, and the predicates on nodes.
//

type showCase struct {
	Id    int           `json:"id"`
	T     []string      `json:"t"`
	Opt   []bool        `json:"opt"`
	Tree  []interface{} `json:"n"`
	Names [][]string    `json:"names"`
	Lines []interface{} `json:"s"`  // of Tree.String: [blanks, text, quoted text]
	Own   []interface{} `json:"ns"` // of the nodes' String
	Is    []interface{} `json:"is"` // the predicates
}

// splitLine takes the line of a node apart. Quoted texts can't contain line
// breaks.
func splitLine(l string) []interface{} {
	t := strings.TrimLeft(l, " ")
	n := len(l) - len(t)
	if i := strings.Index(t, "("); i > 0 && strings.HasSuffix(t, ")") {
		q := t[i+1 : len(t)-1]
		switch t[:i] {
		case "string", "comment", "regex":
			if u, err := strconv.Unquote(q); err == nil && strings.HasPrefix(q, "\"") {
				return []interface{}{n, mustAtoms(t[:i]), mustAtoms(u), -1}
			}
		case "char":
			if u, err := strconv.Unquote(q); err == nil && strings.HasPrefix(q, "'") {
				for _, r := range u {
					return []interface{}{n, mustAtoms(t[:i]), []string{}, int(r)}
				}
			}
		}
	}
	return []interface{}{n, mustAtoms(t), []string{}, -1}
}

func makeShow(id int, s string, opt []bool, names [][]string) *showCase {
	c := &showCase{Id: id, T: mustAtoms(s), Opt: opt, Names: names, Tree: []interface{}{}, Lines: []interface{}{}, Own: []interface{}{}, Is: []interface{}{}}
	var opts parse.ParseOpts
	for i, o := range []parse.ParseOpts{parse.IncludeNonSemantic, parse.IgnoreCommentForm, parse.IgnoreReaderDiscard} {
		if opt[i] {
			opts |= o
		}
	}
	rd := read(s, opts)
	if rd.tree == nil {
		return nil
	}
	c.Tree, _, _, _ = jsonTree(rd.tree.Roots)
	var some []string
	for _, n := range names {
		some = append(some, unatoms(n))
	}
	var out string
	q := guard(func() (*parse.Tree, error) {
		out = rd.tree.String()
		var rec func(ns []parse.Node)
		rec = func(ns []parse.Node) {
			for _, n := range ns {
				c.Own = append(c.Own, splitLine(n.String()))
				c.Is = append(c.Is, []bool{goclj.Symbol(n), goclj.Newline(n), goclj.Vector(n), goclj.Keyword(n), goclj.Comment(n), goclj.Semantic(n),
					goclj.FnFormSymbol(n), goclj.FnFormSymbol(n, some...), goclj.FnFormKeyword(n), goclj.FnFormKeyword(n, some...)})
				rec(n.Children())
			}
		}
		rec(rd.tree.Roots)
		return nil, nil
	})
	if q.panic != "" || q.hang {
		c.Own, c.Is = []interface{}{}, []interface{}{}
		out = "panic or hang"
	}
	if out != "" {
		ls := strings.Split(out, "\n")
		for _, l := range ls[:len(ls)-1] {
			c.Lines = append(c.Lines, splitLine(l))
		}
		if ls[len(ls)-1] != "" {
			c.Lines = append(c.Lines, []interface{}{-1, mustAtoms(ls[len(ls)-1]), []string{}, -1})
		}
	}
	return c
}

func init() {
	kinds["show"] = &kind{text: func(g *Gen) string { return kinds["opts"].text(g) }, maxLen: 300,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			pieces := []string{"a ", "\n", ";c\n", "#_b ", "^m ", "#t ", ":k "}
			n := 3
			if thorough {
				n = 4
			}
			exhaustive(pieces, 0, n, func(s string) {
				for _, o := range []string{"()", "[]", "{}", "#{}", "#()", "#?()", "#?@()", "#:a{}", "#::{}"} {
					i := len(o) - 1
					f(o[:i] + s + "x" + o[i:])
				}
			})
			for _, r := range runeList {
				for _, t := range []string{"a@", "\"@\"", "#\"@\"", ";@", "\\@", ":@", "[@]", "\"a@\\\\@\""} {
					f(strings.Replace(t, "@", string(r), -1))
				}
			}
			for _, c := range chars {
				f("[" + c + "]")
			}
			for _, s := range v.seeds {
				f(s)
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			o := r.Intn(8)
			if r.Intn(2) == 0 {
				o |= 1
			}
			names := [][]string{}
			rd := read(s, fullOpts)
			if rd.tree == nil {
				return nil
			}
			for _, d := range dump(rd.tree.Roots) {
				if (d.kind == "sym" || d.kind == "kw") && r.Intn(3) == 0 && len(names) < 3 {
					names = append(names, mustAtoms(d.val))
				}
			}
			for r.Intn(2) == 0 {
				names = append(names, mustAtoms([]string{"ns", ":require", "a", "", "comment", "nil", ":k"}[r.Intn(7)]))
			}
			r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			if c := makeShow(id, s, []bool{o&1 != 0, o&2 != 0, o&4 != 0}, names); c != nil {
				return c
			}
			return nil
		},
		replay: func(id int, b []byte) interface{} {
			var c showCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			if k := makeShow(id, unatoms(c.T), c.Opt, c.Names); k != nil {
				return k
			}
			return nil
		}}
}

//
// C34: printing trees that no text denotes.
//

type editOp struct {
	Op string   `json:"op"` // del, move, turn, new, operand
	A  int      `json:"a"`
	B  int      `json:"b"`
	C  int      `json:"c"`
	K  string   `json:"k"`
	V  []string `json:"v"`
}

type editCase struct {
	fmtCase
	Opt  []bool        `json:"opt"`
	Ops  []editOp      `json:"ops"`
	Tree []interface{} `json:"n"` // the tree that is printed
}

// An item is a node or the file (nil).
type item struct {
	n, parent parse.Node
}

func isOne(n parse.Node) bool { return n != nil && nodeClass(n) == "one" }
func isSeq(n parse.Node) bool { return n == nil || nodeClass(n) == "seq" }

func edit(t *parse.Tree, ops []editOp) {
	kids := func(n parse.Node) []parse.Node {
		if n == nil {
			return append([]parse.Node{}, t.Roots...)
		}
		return append([]parse.Node{}, n.Children()...)
	}
	set := func(n parse.Node, c []parse.Node) {
		if n == nil {
			t.Roots = c
		} else {
			n.SetChildren(c)
		}
	}
	for _, op := range ops {
		var items []item
		seqs := []parse.Node{nil}
		var ones []parse.Node
		var rec func(p parse.Node)
		rec = func(p parse.Node) {
			for _, n := range kids(p) {
				items = append(items, item{n, p})
				if isSeq(n) {
					seqs = append(seqs, n)
				}
				if isOne(n) {
					ones = append(ones, n)
				}
				rec(n)
			}
		}
		rec(nil)
		if len(items) == 0 {
			return
		}
		within := func(a, b parse.Node) bool { // b is a or inside it
			found := false
			var look func(n parse.Node)
			look = func(n parse.Node) {
				if n == b {
					found = true
				}
				for _, c := range n.Children() {
					look(c)
				}
			}
			look(a)
			return found
		}
		remove := func(x item) bool {
			if !isSeq(x.parent) {
				return false
			}
			c := kids(x.parent)
			for i := range c {
				if c[i] == x.n {
					set(x.parent, append(c[:i], c[i+1:]...))
					break
				}
			}
			return true
		}
		insert := func(p parse.Node, k int, n parse.Node) {
			c := kids(p)
			k %= len(c) + 1
			c = append(c[:k:k], append([]parse.Node{n}, c[k:]...)...)
			set(p, c)
		}
		x := items[op.A%len(items)]
		switch op.Op {
		case "del":
			remove(x)
		case "move":
			p := seqs[op.B%len(seqs)]
			if p != nil && within(x.n, p) {
				continue
			}
			if remove(x) {
				insert(p, op.C, x.n)
			}
		case "turn":
			p := seqs[op.B%len(seqs)]
			c := kids(p)
			for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
				c[i], c[j] = c[j], c[i]
			}
			set(p, c)
		case "new":
			p := seqs[op.B%len(seqs)]
			insert(p, op.C, makeNode(op.K, unatoms(op.V)))
		case "wrap":
			// Put some neighbours into a new node.
			p := seqs[op.B%len(seqs)]
			w := makeNode(op.K, unatoms(op.V))
			if w == nil || !isSeq(w) {
				continue
			}
			c := kids(p)
			i := op.C % (len(c) + 1)
			j := i + op.A%6
			if j > len(c) {
				j = len(c)
			}
			in := append([]parse.Node{}, c[i:j]...)
			set(p, append(c[:i:i], append([]parse.Node{w}, c[j:]...)...))
			w.SetChildren(in)
		case "bare":
			// As if made by hand.
			bare(x.n, op.B%3)
		case "bare all":
			for _, n := range t.Roots {
				bare(n, op.B%3)
			}
		case "operand":
			if len(ones) == 0 {
				continue
			}
			p := ones[op.B%len(ones)]
			k, _, _ := kindOf(x.n)
			if k == "nl" || k == "com" || within(x.n, p) {
				continue
			}
			if remove(x) {
				p.SetChildren([]parse.Node{x.n})
			}
		}
	}
}

// bare takes the positions of n and its descendants away, or makes all of them
// the same.
func bare(n parse.Node, how int) {
	var pos *parse.Pos
	if how == 1 {
		pos = &parse.Pos{Name: "elsewhere", Line: 1, Col: 1}
	}
	reflect.ValueOf(n).Elem().FieldByName("Pos").Set(reflect.ValueOf(pos))
	for _, c := range n.Children() {
		bare(c, how)
	}
}

func makeNode(k, v string) parse.Node {
	switch k {
	case "sym":
		return &parse.SymbolNode{Val: v}
	case "kw":
		return &parse.KeywordNode{Val: v}
	case "num":
		return &parse.NumberNode{Val: v}
	case "str":
		return &parse.StringNode{Val: v}
	case "com":
		return &parse.CommentNode{Text: v}
	case "tag":
		return &parse.TagNode{Val: v}
	case "varq":
		return &parse.VarQuoteNode{Val: v}
	case "regex":
		return &parse.RegexNode{Val: v}
	case "char":
		return &parse.CharacterNode{Val: 'a', Text: v}
	case "nil":
		return &parse.NilNode{}
	case "bool":
		return &parse.BoolNode{Val: v == "true"}
	case "list":
		return &parse.ListNode{}
	case "vec":
		return &parse.VectorNode{}
	case "map":
		return &parse.MapNode{Namespace: v}
	case "set":
		return &parse.SetNode{}
	case "fn":
		return &parse.FnLiteralNode{}
	case "quote":
		return &parse.QuoteNode{Node: &parse.SymbolNode{Val: v}}
	case "meta":
		return &parse.MetadataNode{Node: &parse.KeywordNode{Val: v}}
	case "discard":
		return &parse.ReaderDiscardNode{Node: &parse.SymbolNode{Val: v}}
	}
	return &parse.NewlineNode{}
}

var newNodes = [][2]string{{"sym", "q"}, {"sym", "ns"}, {"sym", "let"}, {"sym", "->"}, {"kw", ":require"}, {"kw", ":as"}, {"num", "1"}, {"str", "a\n  b"}, {"com", ";c"}, {"com", "#!x"}, {"tag", "t"}, {"varq", "v"}, {"regex", "a\nb"}, {"char", "\\a"},
	{"nil", ""}, {"bool", "true"}, {"bool", "false"}, {"list", ""}, {"vec", ""}, {"map", ""}, {"map", ":a"}, {"set", ""}, {"fn", ""}, {"quote", "x"}, {"meta", ":m"}, {"discard", "d"}}

func makeEdit(c editCase) *editCase {
	s := unatoms(c.T)
	var opts parse.ParseOpts
	for i, o := range []parse.ParseOpts{parse.IncludeNonSemantic, parse.IgnoreCommentForm, parse.IgnoreReaderDiscard} {
		if c.Opt[i] {
			opts |= o
		}
	}
	rd := read(s, opts)
	if rd.tree == nil {
		return nil
	}
	edit(rd.tree, c.Ops)
	if len(dump(rd.tree.Roots)) > 150 {
		return nil
	}
	c.Tree, _, _, _ = jsonTree(rd.tree.Roots)
	set := settingsOf(&c.fmtCase)
	f := formatTree(rd.tree, set)
	c.How = strings.SplitN(f.how, ":", 2)[0]
	c.Out = mustAtoms(f.out)
	return &c
}

func init() {
	kinds["edit"] = &kind{text: mixed((*Gen).NS, (*Gen).Unused, (*Gen).Overrides, (*Gen).File, (*Gen).Calls, (*Gen).Docs, (*Gen).ThreadFirst, (*Gen).Small, (*Gen).Soup, (*Gen).If, (*Gen).Defs), maxLen: 250,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, t := range []string{"sort", "style", "use", "unused", "defn", "if"} {
				i := 0
				transformFixed(t, v, false, func(s string) {
					if i++; i%7 == 0 || thorough {
						f(s)
					}
				})
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := settingsFor(s, r, g, transformNames)
			ic := " "
			if set.ic != 0 {
				ic = string(set.ic)
			}
			c := editCase{fmtCase: fmtCase{Id: id, T: mustAtoms(s), Out: []string{}, Out2: []string{}, Over: pairsJSON(set.over), TF: pairsJSON(set.tf), On: onJSON(set.on), Set: setJSON(set.on), IC: mustAtoms(ic)[0]},
				Ops: []editOp{}}
			o := r.Intn(8)
			if r.Intn(3) > 0 {
				o |= 1
			}
			c.Opt = []bool{o&1 != 0, o&2 != 0, o&4 != 0}
			for i, n := 0, r.Intn(5); i < n; i++ {
				k := newNodes[r.Intn(len(newNodes))]
				op := editOp{Op: []string{"del", "move", "move", "turn", "new", "new", "new", "operand", "wrap", "wrap", "bare", "bare all"}[r.Intn(12)], A: r.Intn(1000), B: r.Intn(1000), C: r.Intn(1000), V: []string{}}
				if op.Op == "wrap" {
					k = newNodes[len(newNodes)-1-r.Intn(9)]
					op.K, op.V = k[0], mustAtoms(k[1])
				}
				if op.Op == "new" {
					if r.Intn(3) == 0 {
						k = [2]string{"nl", ""}
					}
					op.K, op.V = k[0], mustAtoms(k[1])
				}
				c.Ops = append(c.Ops, op)
			}
			if k := makeEdit(c); k != nil {
				return k
			}
			return nil
		},
		replay: func(id int, b []byte) interface{} {
			var c editCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			c.Id = id
			if k := makeEdit(c); k != nil {
				return k
			}
			return nil
		}}
}
