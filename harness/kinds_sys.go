package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

// randSettings are any settings at all.
func randSettings(r *rand.Rand, g *Gen, transforms []string) settings {
	set := settings{}
	if r.Intn(2) == 0 {
		set.on = map[string]bool{}
		for _, n := range transforms {
			if r.Intn(4) > 0 {
				set.on[n] = r.Intn(3) > 0
			}
		}
	}
	if r.Intn(3) == 0 {
		set.over = g.randomOverrides(func() string {
			if r.Intn(2) == 0 {
				return g.pick(headSyms)
			}
			return g.ovName()
		})
	}
	if r.Intn(4) == 0 {
		set.tf = map[string]string{}
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			set.tf[g.pick(tfHeads)] = []string{"normal", "cond->"}[r.Intn(2)]
		}
	}
	if r.Intn(6) == 0 {
		set.ic = []rune{'\t', '.', 'é'}[r.Intn(3)]
	}
	return set
}

var (
	headRE = regexp.MustCompile(`\(([^\s()\[\]{}"';,]+)`)
	libRE  = regexp.MustCompile(`[\[(]([a-z][-a-z0-9.]*)\s+:(?:as|refer|refer-macros|only)\b`)
)

// settingsFor is like randSettings, with overrides that likely matter for s.
func settingsFor(s string, r *rand.Rand, g *Gen, transforms []string) settings {
	set := randSettings(r, g, transforms)
	heads := headRE.FindAllStringSubmatch(s, 12)
	if len(heads) == 0 || r.Intn(3) == 0 {
		return set
	}
	libs := libRE.FindAllStringSubmatch(s, 12)
	name := func() string {
		h := heads[r.Intn(len(heads))][1]
		i := strings.LastIndexByte(h, '/')
		switch x := r.Intn(4); {
		case x > 0 && len(libs) > 0:
			return libs[r.Intn(len(libs))][1] + "/" + h[i+1:]
		case x > 1:
			return h[i+1:]
		}
		return h
	}
	if r.Intn(3) > 0 {
		if set.over == nil {
			set.over = map[string]string{}
		}
		for k, v := range g.randomOverrides(name) {
			if knownText(k) {
				set.over[k] = v
			}
		}
	}
	if r.Intn(8) == 0 {
		if set.tf == nil {
			set.tf = map[string]string{}
		}
		if k := name(); knownText(k) {
			set.tf[k] = []string{"normal", "cond->"}[r.Intn(2)]
		}
	}
	return set
}

func allOpts(n int) parse.ParseOpts {
	var opts parse.ParseOpts
	for i, o := range []parse.ParseOpts{parse.IncludeNonSemantic, parse.IgnoreCommentForm, parse.IgnoreReaderDiscard} {
		if n&(1<<uint(i)) != 0 {
			opts |= o
		}
	}
	return opts
}

//
// C04: every call returns.
//

type totalCase struct {
	Id   int           `json:"id"`
	B64  string        `json:"b64"`
	Opt  int           `json:"opt"`
	Over []interface{} `json:"over"`
	TF   []interface{} `json:"tf"`
	Set  []interface{} `json:"set"`
	IC   string        `json:"ic"`
	R    string        `json:"r"` // tree, error, panic, hang
	F    string        `json:"f"` // ok, error, panic, hang, none
	S    string        `json:"s"` // ditto, for the tree's String
	What string        `json:"what"`
}

// shallow tells whether nodes nest less than n deep.  (The time that
// Tree.String takes grows with the cube of the depth.)
func shallow(nodes []parse.Node, n int) bool {
	if n == 0 {
		return len(nodes) == 0
	}
	for _, c := range nodes {
		if !shallow(c.Children(), n-1) {
			return false
		}
	}
	return true
}

func makeTotal(id int, s string, opt int, set settings) *totalCase {
	ic := " "
	if set.ic != 0 {
		ic = string(set.ic)
	}
	c := &totalCase{Id: id, B64: base64.StdEncoding.EncodeToString([]byte(s)), Opt: opt, Over: pairsJSON(set.over), TF: pairsJSON(set.tf),
		Set: setJSON(set.on), IC: mustAtoms(ic)[0], F: "none", S: "none"}
	r := read(s, allOpts(opt))
	switch {
	case r.hang:
		c.R = "hang"
	case r.panic != "":
		c.R, c.What = "panic", r.panic
	case r.err != nil:
		c.R = "error"
		if r.tree != nil {
			c.R = "tree and error"
		}
	case r.tree == nil:
		c.R = "nothing"
	default:
		c.R = "tree"
		if len(s) < 5000 && shallow(r.tree.Roots, 200) {
			c.S = "ok"
			q := guard(func() (*parse.Tree, error) { _ = r.tree.String(); return nil, nil })
			if q.hang {
				c.S = "hang"
			} else if q.panic != "" {
				c.S, c.What = "panic", q.panic
			}
		}
		f := formatTree(r.tree, set)
		c.F = f.how
		if i := strings.Index(f.how, ":"); i > 0 {
			c.F, c.What = f.how[:i], f.how
		}
	}
	return c
}

// Bytes makes a byte string.
func (g *Gen) Bytes() string {
	switch g.n(10) {
	case 0:
		b := make([]byte, g.n(60))
		for i := range b {
			b[i] = byte(g.n(256))
		}
		return string(b)
	case 1, 2, 3, 4:
		// Damage.
		b := []byte(mixed((*Gen).Small, (*Gen).File, (*Gen).NS, (*Gen).Unused)(g))
		for k := g.n(4); k >= 0 && len(b) > 0; k-- {
			i := g.n(len(b))
			switch g.n(4) {
			case 0:
				b[i] = byte(g.n(256))
			case 1:
				b = b[:i]
			case 2:
				b = append(b[:i:i], append([]byte(g.pick([]string{"\x00", "\xff", "\xc3", "\xe4\xb8", "\xf0\x9f", "\r", "\\", "\"", "#", "\xed\xa0\x80", "\xc0\x80", "\u2028"})), b[i:]...)...)
			case 3:
				b = append(b[:i:i], b[i+1:]...)
			}
		}
		return string(b)
	default:
		return mixed((*Gen).Small, (*Gen).File, (*Gen).NS, (*Gen).Unused, (*Gen).Soup, (*Gen).Defs, (*Gen).If, (*Gen).Calls, (*Gen).Docs, (*Gen).Overrides, (*Gen).ThreadFirst)(g)
	}
}

func totalFixed(v *vocab, thorough bool, f func(string)) {
	// The shapes which the transforms and the layout look at, with parts
	// missing.
	heads := []string{"ns", "ns a", "ns a (:require)", "ns a (:require [", "ns (:require [a :as])", "ns a (:use [b :only])", "ns a (:use [b :only [", "ns a (:import (", "ns a (:import [a.", "ns a \"d\"",
		"defn", "defn f", "defn f [", "defmethod", "defmethod f", "def", "def x \"y\"", "if", "if a", "let", "let [", "for", "for [", "for [:let", "for [:let [", "letfn", "letfn [", "letfn [(", "deftype", "deftype a [",
		"cond->", "->", "-> x", "-> (", "cond", "case", "comment", "#_", "ns a (:require [a :as b :refer])", "ns a (:require [a :refer [", "ns a (require", "ns a [:require", "ns a (:require (a (", "ns ^:m", "ns #t", "defn ^", "ns a (:require ^:x", "ns a (:require #_", "ns a (:import #t", "if ^:m", "defmethod f ^:x", "ns a (:require [a :as", "ns a (:refer-clojure :exclude", "ns a (:require [[", "ns a (:require [] [] ()) (:use [] ()) (:import [] ())", "ns a (:import [] () [[]])"}
	closers := []string{"", ")", "])", "]))", "])))", "}", "\n)", ";c\n)", ";c"}
	for _, h := range heads {
		for _, c := range closers {
			for _, p := range []string{"(", "(s/", "[", "#(", "{", "'(", "#?(", "(\n", "(;c\n"} {
				f(p + h + c)
				f(p + h + "\n" + c)
				f(p + h + " ^" + c)
			}
		}
	}
	ns := []int{64, 255, 256, 1000, 4095, 4096, 4097}
	if thorough {
		ns = append(ns, 8192, 10000, 20000)
	}
	for _, n := range ns {
		rep := func(s string) string { return strings.Repeat(s, n) }
		for _, s := range []string{
			rep("("), rep("(") + rep(")"), rep("[") + "a" + rep("]"), rep("{"), rep("#{") + rep("}"), rep("'") + "x", rep("#_") + rep("x "), rep("^a ") + "x", rep("~@") + "a",
			rep("#_"), rep("^"), rep("#t "), rep("a "), rep("\n"), rep(" "), rep("x"), "\"" + rep("x"), "\"" + rep("\\\"") + "\"", ";" + rep("c"), rep(";\n"), rep(":a "), rep("\\a "), rep("#\"a\" "), rep("(let [a "),
			rep("(-> ") + rep(")"), rep("(cond-> x a ") + rep(")"), rep("\xff"), rep("\x00"), rep("é"), rep("(a "), "(ns x (:require" + rep(" [a :as b]") + "))", "(ns x (:use" + rep(" a") + "))", "(defn f\n" + rep("\n") + "[a] b)",
			"(def x \"" + rep("a\n") + "\" 1)", "#?(" + rep("#?(") + rep(")") + ")", "#(" + rep("(") + rep(")") + ")", "#:a{" + rep("#:b{") + rep("}") + "}",
			rep("(if a b\n") + rep(")"), rep("(comment "), rep("@"), rep("`~"), rep("#="), rep("#'a "), rep("\r"), rep("\\"),
		} {
			f(s)
		}
		if n <= 1000 {
			f(rep("(a\n") + rep(")"))
			f(rep("(let [a\n") + "b" + rep("] c)"))
			f(rep("(for [a\n:let [b\n") + "c" + rep("]] d)"))
			f(rep("(-> a\n(cond b\nc\n") + rep("))"))
			f(rep("{a\n") + "b" + rep("}"))
			f(rep("(letfn [(a [] \n") + "b" + rep(")])"))
		}
	}
	for b := 0; b < 256; b++ {
		for _, t := range []string{"", "a", "#", "\\", "\"", ":", ";", "(", "^", "~"} {
			f(t + string([]byte{byte(b)}))
		}
	}
	readFixed(v, false, func(s string) {
		if len(s) <= 3 {
			f(s)
		}
	})
}

// bytesKind marks a kind whose texts may have any bytes.
func init() {
	kinds["total"] = &kind{text: (*Gen).Bytes, fixed: totalFixed, maxLen: 2000000, bytes: true,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			opt := 1
			if r.Intn(2) == 0 {
				opt = r.Intn(8)
			}
			return makeTotal(id, s, opt, randSettings(r, g, transformNames))
		},
		replay: func(id int, b []byte) interface{} {
			var c totalCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			s, err := base64.StdEncoding.DecodeString(c.B64)
			if err != nil {
				fatal(err)
			}
			return makeTotal(id, string(s), c.Opt, settingsOf(&fmtCase{Over: c.Over, TF: c.TF, Set: c.Set, IC: c.IC}))
		}}
}

//
// C05: how input arrives.
//

// A pieces reader delivers its text in pieces and then fails or ends.
type pieces struct {
	b     []byte
	cuts  []int // sizes of the pieces; the rest comes in one piece. 0 is an empty read.
	fin   error // io.EOF or a failure
	joint bool  // deliver fin together with the last piece
	log   func(string)
	block chan struct{} // if not nil, the last read waits for it
	reads int
	done  int32 // nobody's interested in what happens from now on
}

func (p *pieces) Read(b []byte) (int, error) {
	p.reads++
	if p.log != nil && atomic.LoadInt32(&p.done) == 0 {
		p.log("r")
		defer p.log("x")
	}
	if len(p.b) == 0 {
		if p.block != nil {
			<-p.block
		}
		return 0, p.fin
	}
	n := len(p.b)
	if len(p.cuts) > 0 {
		n = p.cuts[0]
		p.cuts = p.cuts[1:]
	}
	if n > len(p.b) {
		n = len(p.b)
	}
	n = copy(b, p.b[:n])
	p.b = p.b[n:]
	if len(p.b) == 0 && p.joint {
		return n, p.fin
	}
	return n, nil
}

var failures = []error{
	errors.New("disk on fire"), io.ErrUnexpectedEOF, fmt.Errorf("wrapped: %w", io.EOF), io.ErrClosedPipe, errors.New("EOF"), os.ErrClosed, &os.PathError{Op: "read", Path: "x", Err: errors.New("boom")},
	io.ErrNoProgress, io.ErrShortBuffer, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.EIO, os.ErrDeadlineExceeded, context.Canceled,
	&os.PathError{Op: "read", Path: "x", Err: io.ErrUnexpectedEOF}, &os.PathError{Op: "read", Path: "x", Err: syscall.EISDIR},
}

type outcome struct {
	Ok    bool          `json:"ok"`
	Tree  []interface{} `json:"n"`
	Pos   []interface{} `json:"p"`
	Chars []int         `json:"c"`
	Err   []interface{} `json:"e"`
}

func outcomeOf(r readResult, name string, fail error) outcome {
	c := outcome{Tree: []interface{}{}, Pos: []interface{}{}, Chars: []int{}}
	switch {
	case r.hang:
		c.Err = []interface{}{"hang", 0, 0, ""}
	case r.panic != "":
		c.Err = []interface{}{"panic", 0, 0, ""}
	case r.err != nil:
		c.Err = errInfo(r.err)
		if c.Err[3] == name {
			c.Err[3] = fileName
		}
		if fail != nil && strings.Contains(r.err.Error(), fail.Error()) {
			c.Err = []interface{}{"read", 0, 0, ""}
		}
		if r.tree != nil {
			c.Err[0] = "tree and error"
		}
	case r.tree == nil:
		c.Err = []interface{}{"no tree", 0, 0, ""}
	default:
		c.Ok = true
		for _, d := range dump(r.tree.Roots) {
			c.Tree = append(c.Tree, []interface{}{d.kind, d.nch, mustAtoms(d.val)})
			if d.pos == nil {
				c.Pos = append(c.Pos, []interface{}{-1, -1, -1, ""})
			} else {
				n := d.pos.Name
				if n == name {
					n = fileName
				}
				c.Pos = append(c.Pos, []interface{}{d.pos.Offset, d.pos.Line, d.pos.Col, n})
			}
			if d.char >= 0 {
				c.Chars = append(c.Chars, d.char)
			}
		}
		c.Err = []interface{}{"", 0, 0, ""}
	}
	return c
}

type splitCase struct {
	Id   int      `json:"id"`
	T    []string `json:"t"` // the text delivered (before the failure)
	Opt  []bool   `json:"opt"`
	Fail int      `json:"fail"` // 0: none, else which failure
	Mode string   `json:"mode"` // reader, file, dir, missing
	Cuts []int    `json:"cuts"`
	Join bool     `json:"joint"`
	W    outcome  `json:"w"` // the text read from a whole string
	Got  outcome  `json:"got"`
	Big  bool     `json:"big"` // too long to judge against the specification
}

func optBools(opts parse.ParseOpts) []bool {
	return []bool{opts&parse.IncludeNonSemantic != 0, opts&parse.IgnoreCommentForm != 0, opts&parse.IgnoreReaderDiscard != 0}
}

func optOf(b []bool) parse.ParseOpts {
	n := 0
	for i, x := range b {
		if x {
			n |= 1 << uint(i)
		}
	}
	return allOpts(n)
}

func makeSplit(c splitCase, s string) *splitCase {
	opts := optOf(c.Opt)
	c.T = mustAtoms(s)
	c.Big = len(c.T) > 1500
	c.W = outcomeOf(read(s, opts), fileName, nil)
	switch c.Mode {
	case "reader":
		var fail error
		p := &pieces{b: []byte(s), cuts: c.Cuts, fin: io.EOF, joint: c.Join}
		if c.Fail > 0 {
			fail = failures[c.Fail-1]
			p.fin = fail
		}
		c.Got = outcomeOf(guard(func() (*parse.Tree, error) { return parse.Reader(p, fileName, opts) }), fileName, fail)
	default:
		d, err := os.MkdirTemp("", "verif-file")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(d)
		name := filepath.Join(d, "in.clj")
		var fail error
		switch c.Mode {
		case "file":
			if err := os.WriteFile(name, []byte(s), 0600); err != nil {
				fatal(err)
			}
		case "dir":
			name = d
			fail = errors.New("is a directory")
		case "missing":
			fail = errors.New("no such file or directory")
		}
		c.Got = outcomeOf(guard(func() (*parse.Tree, error) { return parse.File(name, opts) }), name, fail)
	}
	if c.Big {
		// Only compared with one another.
		c.T = nil
		h := func(o *outcome) {
			b, _ := json.Marshal(o)
			o.Tree, o.Pos, o.Chars = []interface{}{string(b)}, []interface{}{}, []int{}
		}
		c.T = []string{s}
		h(&c.W)
		h(&c.Got)
	}
	return &c
}

func init() {
	kinds["split"] = &kind{
		text: func(g *Gen) string {
			var s string
			switch g.n(12) {
			case 0, 1, 2:
				s = g.Bytes()
			case 3:
				// Across the boundary of a buffer of 4096.
				t := g.Small()
				s = g.pick([]string{";", "\"", " ", "\n", "x", "(", "é"})
				k := (4096 + g.n(8) - 6 - g.n(len(t)+1)) / len(s)
				if k < 0 {
					k = 1
				}
				s = strings.Repeat(s, k) + g.pick([]string{"", "\n", "\"", ")"}) + t + t
			default:
				s = mixed((*Gen).Soup, (*Gen).Small, (*Gen).Lexemes)(g)
			}
			if g.n(8) == 0 {
				s = g.pick([]string{"\uFEFF", "\uFEFF ", "\xef\xbb", "\xfe\xff", "\xff\xfe", "#!x\n", "\x00", "\x1f\x8b", "\r\n", "\n", ";"}) + s
			}
			if g.n(16) == 0 {
				s += g.pick([]string{"\x00", "\x1a", "\uFEFF", "\xef", "\r", "\\", "\"", "#", "~", "+", "(", ";", "#_"})
			}
			return s
		},
		fixed: func(v *vocab, thorough bool, f func(string)) {
			exhaustive(smallAlphabet, 0, 2, f)
			for _, s := range []string{"é", "世", "\U0001F600", "(é 世)", "\"\U0001F600\"", "\\世", "#_é", ":世", ";é\n", "\\u0041", "\\newline", "#?@(a)", "~@a", "+", "-1", "a\nb", "#:a{}", "#!", "#<", "a #"} {
				for i := 0; i <= len(s); i++ {
					f(s[:i])
				}
			}
			for _, s := range v.seeds {
				if len(s) < 250 {
					f(s)
				}
			}
		},
		maxLen: 9000, bytes: true,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			c := splitCase{Id: id, Opt: optBools(fullOpts), Mode: "reader", Cuts: []int{}}
			if r.Intn(4) == 0 {
				c.Opt = optBools(allOpts(r.Intn(8)))
			}
			switch r.Intn(30) {
			case 0:
				c.Mode = "file"
			case 1:
				if r.Intn(3) == 0 {
					c.Mode, s, c.Fail = []string{"dir", "missing"}[r.Intn(2)], "", 1
				}
			}
			if c.Mode == "reader" {
				if r.Intn(2) == 0 {
					// It fails somewhere.
					c.Fail = 1 + r.Intn(len(failures))
					if r.Intn(4) > 0 {
						s = s[:r.Intn(len(s)+1)]
					}
				}
				switch r.Intn(5) {
				case 0:
				case 1:
					for i := 0; i < len(s); i++ {
						c.Cuts = append(c.Cuts, 1)
					}
				default:
					for i := 0; i < len(s); {
						n := r.Intn(5)
						if r.Intn(10) == 0 {
							n = r.Intn(100)
						}
						if n == 0 && r.Intn(3) > 0 {
							n = 1
						}
						c.Cuts = append(c.Cuts, n)
						i += n
					}
				}
				c.Join = r.Intn(3) == 0
			}
			return makeSplit(c, s)
		},
		replay: func(id int, b []byte) interface{} {
			var c splitCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			s := unatoms(c.T)
			c.Id = id
			return makeSplit(c, s)
		}}
}

//
// C06: goroutines.
//

type leakCase struct {
	Id    int      `json:"id"`
	Reads []string `json:"reads"` // base64 texts
	Fails []int    `json:"fails"`
	Modes []int    `json:"modes"` // 0 whole, 1 single bytes, 2 the last read blocks until after the return
	Opt   int      `json:"opt"`
	// Events of all the reads, in order: call, r and x (a Read of the
	// underlying reader begins and ends), ret, release, quiet or stuck (the
	// number of goroutines is, or isn't, back to what it was), freed or
	// retained (the reader is, or isn't, garbage).
	Ev []string `json:"ev"`
}

// leakSeen counts what went wrong; after a few times there is no point in
// waiting long.
var leakSeen int

func makeLeak(c leakCase) *leakCase {
	var mu sync.Mutex
	ev := []string{}
	log := func(s string) {
		mu.Lock()
		// Runs of reads are all the same.
		if n := len(ev); !(n >= 2 && s == "r" && ev[n-1] == "x" && ev[n-2] == "r") && !(n >= 3 && s == "x" && ev[n-1] == "x") {
			ev = append(ev, s)
		}
		mu.Unlock()
	}
	base := runtime.NumGoroutine()
	settle := func() bool {
		for i := 0; i < 4000 && (leakSeen < 8 || i < 220); i++ {
			if runtime.NumGoroutine() <= base {
				return true
			}
			if i < 200 {
				runtime.Gosched()
			} else {
				time.Sleep(time.Millisecond)
			}
		}
		return false
	}
	for i, t := range c.Reads {
		b, _ := base64.StdEncoding.DecodeString(t)
		freed := new(int32)
		func() {
			p := &pieces{b: b, fin: io.EOF, log: log}
			if c.Fails[i] > 0 {
				p.fin = failures[c.Fails[i]-1]
			}
			switch c.Modes[i] {
			case 1:
				for range b {
					p.cuts = append(p.cuts, 1)
				}
			case 2:
				p.block = make(chan struct{})
			}
			runtime.SetFinalizer(p, func(*pieces) { atomic.StoreInt32(freed, 1) })
			log("call")
			done := make(chan struct{})
			if c.Modes[i] == 2 {
				// Release it when the call has returned or after a
				// while (it may well wait for its input).
				go func(bl chan struct{}) {
					select {
					case <-done:
					case <-time.After(2 * time.Millisecond):
					}
					log("release")
					close(bl)
				}(p.block)
			}
			t, err := parse.Reader(p, fileName, allOpts(c.Opt))
			if (t == nil) == (err == nil) {
				log("nonsense")
			}
			log("ret")
			close(done)
			atomic.StoreInt32(&p.done, 1)
		}()
		if settle() {
			log("quiet")
		} else {
			leakSeen++
			log("stuck")
			base = runtime.NumGoroutine()
		}
		// (A second collection would also empty any sync.Pool.)
		runtime.GC()
		for j := 0; j < 3000 && atomic.LoadInt32(freed) == 0 && (leakSeen < 8 || j < 120); j++ {
			if j < 100 {
				runtime.Gosched()
			} else {
				time.Sleep(100 * time.Microsecond)
			}
		}
		if atomic.LoadInt32(freed) == 1 {
			log("freed")
		} else {
			leakSeen++
			log("retained")
		}
	}
	mu.Lock()
	c.Ev = ev
	mu.Unlock()
	return &c
}

func init() {
	kinds["leak"] = &kind{text: mixed((*Gen).Soup, (*Gen).Small, (*Gen).Bytes),
		fixed: func(v *vocab, thorough bool, f func(string)) {
			toks := []string{"a ", "(", ")", "#t ", "^", "\\ab ", "#(", "\"", "#<", "#?", "~", "\n"}
			exhaustive(toks, 0, 2, f)
			for _, s := range []string{") a", "(] b c d", "#?x (a) b", "#:a b c", "#(#(a)) b", "\\zz a b", "a ) b", "^", "(", "#' ( a", "# ( a b c"} {
				f(s)
				f(s + strings.Repeat(" x", 3000))
			}
		},
		maxLen: 9000, bytes: true,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			c := leakCase{Id: id, Opt: 1 + r.Intn(7)}
			for i, n := 0, 1+r.Intn(2); i < n; i++ {
				if i > 0 {
					s = g.Soup()
				}
				c.Reads = append(c.Reads, base64.StdEncoding.EncodeToString([]byte(s)))
				f := 0
				if r.Intn(4) == 0 {
					f = 1 + r.Intn(len(failures))
				}
				c.Fails = append(c.Fails, f)
				m := r.Intn(12)
				if m > 2 || len(s) > 1000 {
					m = 0
				}
				c.Modes = append(c.Modes, m)
			}
			return makeLeak(c)
		},
		replay: func(id int, b []byte) interface{} {
			var c leakCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			c.Id = id
			return makeLeak(c)
		}}
}

//
// C07: concurrent operations.
//

type conCase struct {
	Id  int     `json:"id"`
	Ops []conOp `json:"ops"` // each with a result got alone (o) and concurrently (o2)
}

type conOp struct {
	fmtCase
	S  []string `json:"s"`  // the text depicted, when read with some options, or the error
	S2 []string `json:"s2"` // the same, got concurrently
}

func makeCon(id int, texts []string, sets []settings) *conCase {
	c := &conCase{Id: id}
	type result struct {
		how string
		out []string
		s   string
	}
	// What else a text and its reading look like.
	look := func(text string, n int) (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = "panic"
			}
		}()
		t, err := parse.Reader(strings.NewReader(text), fileName, allOpts(n%8))
		if err != nil {
			return strconv.QuoteToASCII(err.Error())
		}
		return strconv.QuoteToASCII(t.String())
	}
	// All together first: what is computed once and kept must be computed
	// safely too.
	const rounds = 3
	results := make([][rounds]result, len(texts))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range texts {
		for k := 0; k < rounds; k++ {
			wg.Add(1)
			go func(i, k int) {
				defer wg.Done()
				<-start
				var out bytes.Buffer
				how := "ok"
				s := look(texts[i], i+k)
				func() {
					defer func() {
						if e := recover(); e != nil {
							how = "panic"
						}
					}()
					t, err := parse.Reader(strings.NewReader(texts[i]), fileName, fullOpts)
					if err != nil {
						how = "unreadable"
						return
					}
					p := format.NewPrinter(&out)
					sets[i].apply(p)
					if err := p.PrintTree(t); err != nil {
						how = "error"
					}
				}()
				results[i][k] = result{how, mustAtoms(out.String()), s}
			}(i, k)
		}
	}
	close(start)
	wg.Wait()
	for i := range texts {
		fc, ok := makeFmtCase(i, texts[i], sets[i])
		k := conOp{fmtCase: fc}
		if !ok {
			k.Id = i
			k.T, k.How = mustAtoms(texts[i]), "unreadable"
			k.Over, k.TF, k.On, k.Set, k.IC, k.Out = pairsJSON(sets[i].over), pairsJSON(sets[i].tf), onJSON(sets[i].on), setJSON(sets[i].on), " ", []string{}
			if sets[i].ic != 0 {
				k.IC = mustAtoms(string(sets[i].ic))[0]
			}
		}
		k.How2, k.Out2 = k.How, k.Out
		k.S, k.S2 = []string{}, []string{}
		for j, r := range results[i] {
			k.S, k.S2 = append(k.S, look(texts[i], i+j)), append(k.S2, r.s)
		}
		// Keep what differs, if anything does.
		for _, r := range results[i] {
			if r.how != k.How || strings.Join(r.out, " ") != strings.Join(k.Out, " ") {
				k.How2, k.Out2 = r.how, r.out
			}
		}
		c.Ops = append(c.Ops, k)
	}
	return c
}

func init() {
	kinds["con"] = &kind{text: mixed((*Gen).NS, (*Gen).File, (*Gen).Unused, (*Gen).Overrides, (*Gen).Calls, (*Gen).Docs, (*Gen).Soup), maxLen: 4000,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			// Everything gets bigger and bigger.
			for _, n := range []int{5, 9, 17, 33, 65, 129, 257} {
				for i := 0; i < *flagShards; i++ {
					x := "x" + strconv.Itoa(i)
					f(strings.Repeat("(", n) + x + strings.Repeat(")", n))
					f("(ns " + x + " (:require" + strings.Repeat(" [b"+x+" :as c]", n/2) + "))\n(" + strings.Repeat(x, n/2) + "\n1\n\"" + strings.Repeat("y", n) + "\")")
					f("(def " + strings.Repeat("z", n) + " \"" + strings.Repeat(x+"\n", n/5) + "\" " + strings.Repeat("\n"+x, n/5) + ")")
				}
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			texts := []string{s}
			sets := []settings{settingsFor(s, r, g, transformNames)}
			for i, n := 0, 2+r.Intn(5); i < n; i++ {
				t := texts[r.Intn(len(texts))]
				if r.Intn(3) > 0 {
					for {
						t = kinds["con"].text(g)
						if len(t) < 300 && knownText(t) {
							break
						}
					}
				}
				texts = append(texts, t)
				sets = append(sets, settingsFor(s, r, g, transformNames))
			}
			return makeCon(id, texts, sets)
		},
		replay: func(id int, b []byte) interface{} {
			var c conCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			var texts []string
			var sets []settings
			for i := range c.Ops {
				texts = append(texts, unatoms(c.Ops[i].T))
				sets = append(sets, settingsOf(&c.Ops[i].fmtCase))
			}
			return makeCon(id, texts, sets)
		}}
}

//
// C09: parents and children.
//

type linkCase struct {
	Id    int      `json:"id"`
	T     []string `json:"t"`
	Spare []string `json:"spare"` // kinds of the extra nodes
	Kinds []string `json:"kinds"` // leaf, one, seq; of the tree's nodes in preorder and the extra ones
	Roots []int    `json:"roots"`
	Ops   []linkOp `json:"ops"`
	P0    []int    `json:"p0"`
	C0    [][]int  `json:"c0"`
	E0    [][]int  `json:"e0"` // the children there should be, from the shape of the tree
}

type linkOp struct {
	X    int     `json:"x"`
	Cs   []int   `json:"cs"`
	How  string  `json:"how"`
	P    []int   `json:"p"`
	C    [][]int `json:"c"`
	Step int     `json:"step"`
}

func nodeClass(n parse.Node) string {
	k, _, _ := kindOf(n)
	switch k {
	case "list", "vec", "map", "set", "fn", "rcond", "rconds":
		return "seq"
	case "quote", "squote", "unq", "unqs", "deref", "meta", "discard", "eval":
		return "one"
	}
	return "leaf"
}

var spareMakers = map[string]func() parse.Node{
	"sym":    func() parse.Node { return &parse.SymbolNode{Val: "q"} },
	"nl":     func() parse.Node { return &parse.NewlineNode{} },
	"list":   func() parse.Node { return &parse.ListNode{} },
	"vec":    func() parse.Node { return &parse.VectorNode{} },
	"map":    func() parse.Node { return &parse.MapNode{} },
	"set":    func() parse.Node { return &parse.SetNode{} },
	"fn":     func() parse.Node { return &parse.FnLiteralNode{} },
	"rcond":  func() parse.Node { return &parse.ReaderCondNode{} },
	"rconds": func() parse.Node { return &parse.ReaderCondSpliceNode{} },
	"com":    func() parse.Node { return &parse.CommentNode{Text: ";"} },
}

func makeLink(c linkCase, s string) *linkCase {
	r := read(s, fullOpts)
	if r.tree == nil {
		return nil
	}
	c.T = mustAtoms(s)
	var nodes []parse.Node
	idx := map[parse.Node]int{}
	var shape [][]int
	var add func(n parse.Node) int
	add = func(n parse.Node) int {
		i := len(nodes)
		nodes = append(nodes, n)
		idx[n] = i + 1
		shape = append(shape, []int{})
		for _, x := range n.Children() {
			j := add(x)
			shape[i] = append(shape[i], j)
		}
		return i + 1
	}
	c.Roots = []int{}
	for _, n := range r.tree.Roots {
		c.Roots = append(c.Roots, add(n))
	}
	for _, k := range c.Spare {
		add(spareMakers[k]())
	}
	c.E0 = shape
	c.Kinds = []string{}
	for _, n := range nodes {
		c.Kinds = append(c.Kinds, nodeClass(n))
	}
	snap := func() (p []int, ch [][]int) {
		p, ch = []int{}, [][]int{}
		for _, n := range nodes {
			par := 0
			if q := n.Parent(); q != nil {
				var ok bool
				if par, ok = idx[q]; !ok {
					par = -1
				}
			}
			p = append(p, par)
			cs := []int{}
			for _, x := range n.Children() {
				if i, ok := idx[x]; ok {
					cs = append(cs, i)
				} else {
					cs = append(cs, -1)
				}
			}
			ch = append(ch, cs)
		}
		return
	}
	c.P0, c.C0 = snap()
	ops := c.Ops
	c.Ops = []linkOp{}
	for _, op := range ops {
		if op.X > len(nodes) {
			continue
		}
		var cs []parse.Node
		for _, i := range op.Cs {
			cs = append(cs, nodes[i-1])
		}
		op.How = "ok"
		func() {
			defer func() {
				if e := recover(); e != nil {
					op.How = "refused"
				}
			}()
			nodes[op.X-1].SetChildren(cs)
		}()
		op.P, op.C = snap()
		c.Ops = append(c.Ops, op)
	}
	return &c
}

func init() {
	kinds["link"] = &kind{text: func(g *Gen) string {
		for {
			if s := mixed((*Gen).Soup, (*Gen).Soup, (*Gen).Small)(g); len(s) < 70 {
				return s
			}
		}
	},
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, o := range []string{"()", "[]", "{}", "#{}", "#()", "#?()", "#?@()", "#:a{}"} {
				i := len(o) - 1
				for _, p := range []string{"", "'", "`", "~", "~@", "@", "#_", "^", "#^", "#="} {
					f(o[:i] + p + "a b" + o[i:] + " c")
					f(p + o[:i] + "a" + o[i:] + " " + o[:i] + "b" + o[i:])
					f(p + o[:i] + p + "a" + o[i:])
				}
			}
		},
		maxLen: 80,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			rd := read(s, fullOpts)
			if rd.tree == nil {
				return nil
			}
			n := len(dump(rd.tree.Roots))
			if n > 24 || n == 0 {
				return nil
			}
			c := linkCase{Id: id, Spare: []string{}}
			var ks []string
			for k := range spareMakers {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for i, m := 0, r.Intn(4); i < m; i++ {
				c.Spare = append(c.Spare, ks[r.Intn(len(ks))])
			}
			total := n + len(c.Spare)
			var classes []string
			for _, d := range dump(rd.tree.Roots) {
				classes = append(classes, d.kind)
			}
			classes = append(classes, c.Spare...)
			for i, m := 0, 1+r.Intn(7); i < m; i++ {
				x := 1 + r.Intn(total)
				for t := 0; t < 6; t++ {
					// Prefer nodes that may have children.
					k := classes[x-1]
					if _, leaf := map[string]bool{"sym": true, "kw": true, "num": true, "nl": true, "com": true, "nil": true, "bool": true, "str": true, "char": true, "tag": true, "varq": true, "regex": true}[k]; !leaf {
						break
					}
					x = 1 + r.Intn(total)
				}
				op := linkOp{X: x, Cs: []int{}, Step: i}
				k := r.Intn(4)
				if r.Intn(3) == 0 {
					k = 1
				}
				for j := 0; j < k; j++ {
					op.Cs = append(op.Cs, 1+r.Intn(total))
				}
				c.Ops = append(c.Ops, op)
			}
			if k := makeLink(c, s); k != nil {
				return k
			}
			return nil
		},
		replay: func(id int, b []byte) interface{} {
			var c linkCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			c.Id = id
			if k := makeLink(c, unatoms(c.T)); k != nil {
				return k
			}
			return nil
		}}
}

//
// C25: histories of prints.
//

type histOp struct {
	Tx   int      `json:"tx"`   // index of the text, from 1
	Se   int      `json:"se"`   // index of the settings, from 1
	Pr   int      `json:"pr"`   // printer used (0: a new one)
	Tr   int      `json:"tr"`   // tree printed again (0: read anew); op index
	Expl bool     `json:"expl"` // defaults spelt out
	How  string   `json:"how"`
	Out  []string `json:"o"`
	Kept bool     `json:"kept"` // settings and defaults are as before
	Text bool     `json:"same"` // the tree is as the text says
}

type histCase struct {
	Id    int        `json:"id"`
	Texts [][]string `json:"texts"`
	Sets  []fmtCase  `json:"sets"`
	H     []histOp   `json:"h"`
}

func spelt(s settings) settings {
	t := s
	t.on = map[string]bool{}
	for _, n := range transformNames {
		t.on[n] = defaultOn(n)
	}
	for n, b := range s.on {
		t.on[n] = b
	}
	if t.over == nil {
		t.over = map[string]string{}
	}
	if t.tf == nil {
		t.tf = map[string]string{}
	}
	if t.ic == 0 {
		t.ic = ' '
	}
	return t
}

func snapshot(p *format.Printer) string {
	return fmt.Sprint(p.IndentOverrides, p.ThreadFirstStyleOverrides, p.Transforms, string(p.IndentChar), format.DefaultTransforms)
}

func makeHist(c histCase) *histCase {
	var texts []string
	for _, t := range c.Texts {
		texts = append(texts, unatoms(t))
	}
	type pr struct {
		p *format.Printer
		b *bytes.Buffer
	}
	printers := map[int]pr{}
	trees := map[int]*parse.Tree{}
	ops := c.H
	c.H = []histOp{}
	for i, op := range ops {
		set := settingsOf(&c.Sets[op.Se-1])
		if len(c.Sets[op.Se-1].Set) == 0 {
			set.on = nil
		}
		if op.Expl {
			set = spelt(set)
		}
		t := trees[op.Tr]
		if t == nil {
			r := read(texts[op.Tx-1], fullOpts)
			if r.tree == nil {
				return nil
			}
			t = r.tree
			op.Tr = 0
		}
		trees[i+1] = t
		x, ok := printers[op.Pr]
		if !ok || op.Pr == 0 {
			x.b = new(bytes.Buffer)
			x.p = format.NewPrinter(x.b)
			printers[op.Pr] = x
		}
		x.p.IndentChar = ' '
		x.p.IndentOverrides, x.p.ThreadFirstStyleOverrides, x.p.Transforms = nil, nil, nil
		set.apply(x.p)
		before := snapshot(x.p)
		x.b.Reset()
		op.How = "ok"
		q := guard(func() (*parse.Tree, error) { return nil, x.p.PrintTree(t) })
		switch {
		case q.hang:
			op.How = "hang"
		case q.panic != "":
			op.How = "panic"
		case q.err != nil:
			op.How = "error"
		}
		op.Kept = snapshot(x.p) == before
		op.Out = []string{}
		if !q.hang {
			op.Out = mustAtoms(x.b.String())
		}
		c.H = append(c.H, op)
	}
	return &c
}

func init() {
	defaults := transformNames[:7]
	kinds["hist"] = &kind{text: mixed((*Gen).NS, (*Gen).Unused, (*Gen).Overrides, (*Gen).File, (*Gen).Calls, (*Gen).Docs, (*Gen).ThreadFirst), maxLen: 350,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, t := range []string{"sort", "style", "use"} {
				i := 0
				transformFixed(t, v, false, func(s string) {
					if i++; i%5 == 0 {
						f(s)
					}
				})
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			c := histCase{Id: id, Texts: [][]string{mustAtoms(s)}}
			for k := r.Intn(3); k > 0; k-- {
				t := kinds["hist"].text(g)
				switch r.Intn(4) {
				case 0: // what follows some namespace
					if i := strings.Index(s, ")\n"); i > 0 {
						t = s[i+2:]
					}
				case 1:
					t = mutate(r, s, nil)
				}
				if len(t) < 300 && knownText(t) && read(t, fullOpts).tree != nil {
					c.Texts = append(c.Texts, mustAtoms(t))
				}
			}
			ns := 1 + r.Intn(2)
			for k := 0; k < ns; k++ {
				set := settingsFor(s, r, g, transformNames)
				ic := " "
				if set.ic != 0 {
					ic = string(set.ic)
				}
				c.Sets = append(c.Sets, fmtCase{T: []string{}, Out: []string{}, Out2: []string{}, Over: pairsJSON(set.over), TF: pairsJSON(set.tf), On: onJSON(set.on), Set: setJSON(set.on), IC: mustAtoms(ic)[0]})
			}
			n := 5 + r.Intn(6)
			for k := 0; k < n; k++ {
				op := histOp{Tx: 1 + r.Intn(len(c.Texts)), Se: 1 + r.Intn(ns), Pr: r.Intn(3), Expl: r.Intn(3) == 0}
				if k > 0 && r.Intn(4) == 0 {
					// The same tree again. (The optional transforms
					// look at what the others will yet change.)
					j := r.Intn(k)
					o := c.H[j]
					ok := true
					for _, n := range c.Sets[o.Se-1].On {
						if n == "use" || n == "unused" {
							ok = false
						}
					}
					if ok && o.Tr == 0 {
						op.Tr, op.Tx, op.Se = j+1, o.Tx, o.Se
					}
				}
				c.H = append(c.H, op)
			}
			_ = defaults
			if k := makeHist(c); k != nil {
				return k
			}
			return nil
		},
		replay: func(id int, b []byte) interface{} {
			var c histCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			c.Id = id
			if k := makeHist(c); k != nil {
				return k
			}
			return nil
		}}
}

//
// C26: writers that fail.
//

type writeCase struct {
	Id    int           `json:"id"`
	T     []string      `json:"t"`
	Over  []interface{} `json:"over"`
	TF    []interface{} `json:"tf"`
	Set   []interface{} `json:"set"`
	IC    string        `json:"ic"`
	Want  []int         `json:"want"` // the bytes a buffer receives
	Limit int           `json:"limit"`
	Mode  string        `json:"mode"` // how the writer fails: error, partial, short, once
	Err   int           `json:"err"`  // with what error
	Got   []int         `json:"got"`
	How   string        `json:"how"` // ok, fail (with the failure), error (another one), panic, hang
	Rep   int           `json:"rep"` // the text is repeated this many times
}

// A limited writer takes limit bytes and then fails.
type limited struct {
	b     []byte
	limit int
	mode  string
	err   error
	fails int
}

var writeErrors = []error{errors.New("no space left on gadget"), syscall.EPIPE, syscall.ENOSPC, io.ErrClosedPipe, io.EOF, io.ErrShortWrite, os.ErrClosed,
	io.ErrUnexpectedEOF, syscall.EAGAIN, syscall.EINTR, &os.PathError{Op: "write", Path: "x", Err: syscall.EPIPE}, fmt.Errorf("wrapped: %w", io.EOF),
	context.Canceled, os.ErrDeadlineExceeded, errors.New("")}

func (w *limited) Write(b []byte) (int, error) {
	if w.fails > 0 && w.mode == "once" {
		// It works again.
		w.b = append(w.b, b...)
		return len(b), nil
	}
	room := w.limit - len(w.b)
	if w.fails > 0 {
		room = 0
	}
	if len(b) <= room {
		w.b = append(w.b, b...)
		return len(b), nil
	}
	w.fails++
	switch w.mode {
	case "error":
		return 0, w.err
	case "short":
		w.b = append(w.b, b[:room]...)
		return room, nil
	}
	w.b = append(w.b, b[:room]...)
	return room, w.err
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, c := range b {
		out[i] = int(c)
	}
	return out
}

func makeWrite(c writeCase, s string) *writeCase {
	s1 := s
	c.T = mustAtoms(s)
	for i := 1; i < c.Rep; i++ {
		s1 += "\n" + s
	}
	set := settingsOf(&fmtCase{Over: c.Over, TF: c.TF, Set: c.Set, IC: c.IC})
	f, ok := formatText(s1, set)
	if !ok || f.how != "ok" {
		return nil
	}
	rd := read(s1, fullOpts)
	w := &limited{limit: c.Limit, mode: c.Mode, err: writeErrors[c.Err]}
	p := format.NewPrinter(w)
	set.apply(p)
	q := guard(func() (*parse.Tree, error) { return nil, p.PrintTree(rd.tree) })
	switch {
	case q.hang:
		c.How = "hang"
	case q.panic != "":
		c.How = "panic"
	case q.err == nil:
		c.How = "ok"
	case strings.Contains(q.err.Error(), w.err.Error()), c.Mode == "short" && strings.Contains(q.err.Error(), io.ErrShortWrite.Error()):
		c.How = "fail"
	default:
		c.How = "error"
	}
	c.Want, c.Got = ints([]byte(f.out)), ints(w.b)
	return &c
}

func init() {
	kinds["write"] = &kind{text: mixed((*Gen).Small, (*Gen).File, (*Gen).Docs, (*Gen).Calls), maxLen: 400,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			for _, s := range []string{"", "a", "\n", "(a b)", "\"a\nb\"", ";c", "#t a", "^a b", "\\a", "(def x \"a\n  b\" c)"} {
				f(s)
			}
			for _, n := range []int{4094, 4095, 4096, 4097, 8191, 8192, 8193} {
				f(strings.Repeat("a", n))
				f("\"" + strings.Repeat("a", n-2) + "\"")
				f("(" + strings.Repeat("a", n-2) + ")")
				f(";" + strings.Repeat("a", n-1))
				f(strings.Repeat("a\n", n/2))
			}
			for _, s := range v.seeds {
				if len(s) > 600 {
					f(s)
				}
			}
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := randSettings(r, g, transformNames[:7])
			ic := " "
			if set.ic != 0 {
				ic = string(set.ic)
			}
			c := writeCase{Id: id, Over: pairsJSON(set.over), TF: pairsJSON(set.tf), Set: setJSON(set.on), IC: mustAtoms(ic)[0], Rep: 1, Limit: 1 << 30}
			if r.Intn(8) == 0 && len(s) > 10 {
				c.Rep = 1 + r.Intn(9000/len(s)+1)
			}
			probe := makeWrite(c, s)
			if probe == nil {
				return nil
			}
			n := len(probe.Want)
			c.Mode = []string{"error", "partial", "short", "once"}[r.Intn(4)]
			if r.Intn(2) == 0 {
				c.Err = r.Intn(len(writeErrors))
			}
			switch r.Intn(6) {
			case 0:
				c.Limit = n + r.Intn(3) - 1
			case 1:
				c.Limit = r.Intn(3)
			case 2:
				c.Limit = 4096*r.Intn(3) + r.Intn(3) - 1
			default:
				c.Limit = r.Intn(n + 1)
			}
			if c.Limit < 0 {
				c.Limit = 0
			}
			if k := makeWrite(c, s); k != nil {
				return k
			}
			return nil
		},
		replay: func(id int, b []byte) interface{} {
			var c writeCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			c.Id = id
			if k := makeWrite(c, unatoms(c.T)); k != nil {
				return k
			}
			return nil
		}}
	kinds["write"].maxLen = 9000
}
