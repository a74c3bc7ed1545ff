package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

var (
	flagCljfmt  = flag.String("cljfmt", "", "the cljfmt binary")
	flagScratch = flag.String("scratch", "", "a directory to run cljfmt in")
)

type cliPath [][]string

func cpath(p string) cliPath {
	out := cliPath{}
	for _, s := range strings.Split(p, "/") {
		if s != "" && s != "." {
			out = append(out, mustAtoms(s))
		}
	}
	return out
}

func (p cliPath) String() string {
	var s []string
	for _, x := range p {
		s = append(s, unatoms(x))
	}
	return strings.Join(s, "/")
}

type cliEntry struct {
	P    cliPath  `json:"p"`
	K    string   `json:"k"` // file, dir, link, bad
	T    []string `json:"t"`
	R    bool     `json:"r"`
	W    bool     `json:"w"`
	X    bool     `json:"x"`
	To   cliPath  `json:"to"`
	Mode uint32   `json:"mode"`
}

type cliFlag struct {
	F string  `json:"f"`
	V string  `json:"v"`
	P cliPath `json:"p"`
}

type cliInv struct {
	Flags []cliFlag `json:"flags"`
	Args  []cliPath `json:"args"`
	Stdin struct {
		K string   `json:"k"`
		T []string `json:"t"`
	} `json:"stdin"`
	Src struct {
		Conf []cliPath `json:"conf"`
		Off  bool      `json:"off"`
		Home []cliPath `json:"home"`
	} `json:"src"`
	Full bool `json:"full"`
}

type cliAfter struct {
	P       cliPath  `json:"p"`
	T       []string `json:"t"`
	Same    bool     `json:"same"`
	Touched bool     `json:"touched"`
}

type cliCase struct {
	Id  int        `json:"id"`
	FS  []cliEntry `json:"fs"`
	Inv cliInv     `json:"inv"`
	Raw struct {
		Args   []string `json:"args"` // {ROOT} stands for the scratch directory
		Env    []string `json:"env"`
		Stdout string   `json:"stdout"` // pipe, full, readonly
	} `json:"raw"`
	Got struct {
		How   string     `json:"how"`
		OK    bool       `json:"ok"`
		Err   bool       `json:"err"`
		Named []cliPath  `json:"named"`
		Names []cliPath  `json:"names"`
		Text  []string   `json:"text"`
		After []cliAfter `json:"after"`
		Extra []string   `json:"extra"`
		Msg   string     `json:"msg"`
	} `json:"got"`
}

const nobody = 65534

var cliUser struct {
	tried bool
	cred  *syscall.Credential
}

// cliCred tells whether cljfmt can be run as an unprivileged user.
func cliCred() *syscall.Credential {
	if !cliUser.tried {
		cliUser.tried = true
		if os.Geteuid() == 0 {
			cred := &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}
			cmd := exec.Command(*flagCljfmt)
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
			cmd.Env = []string{}
			if err := cmd.Run(); err == nil {
				cliUser.cred = cred
			}
		}
	}
	return cliUser.cred
}

// hasPermissions tells whether permissions mean anything to cljfmt.
func hasPermissions() bool { return os.Geteuid() != 0 || cliCred() != nil }

var oldTime = time.Unix(1000000000, 0)

func runCli(c *cliCase) *cliCase {
	root := filepath.Join(*flagScratch, fmt.Sprintf("run%d", c.Id))
	must := func(err error) {
		if err != nil {
			fatal(err)
		}
	}
	must(os.MkdirAll(root, 0755))
	defer func() {
		// Make directories accessible again.
		for _, e := range c.FS {
			if e.K == "dir" {
				os.Chmod(filepath.Join(root, e.P.String()), 0755)
			}
		}
		os.RemoveAll(root)
	}()
	uid := os.Geteuid()
	cred := cliCred()
	if cred != nil {
		uid = nobody
	}
	must(os.Chmod(*flagScratch, 0755))
	must(os.Chmod(root, 0755))
	sort.SliceStable(c.FS, func(i, j int) bool { return len(c.FS[i].P) < len(c.FS[j].P) })
	at := func(p cliPath) string { return filepath.Join(root, p.String()) }
	for _, e := range c.FS {
		p := at(e.P)
		switch e.K {
		case "dir":
			must(os.Mkdir(p, 0755))
		case "file":
			must(os.WriteFile(p, []byte(unatoms(e.T)), 0644))
		case "link":
			up := strings.Repeat("../", len(e.P)-1)
			must(os.Symlink(up+e.To.String(), p))
		case "bad":
			must(os.Symlink("/proc/self/mem", p))
		}
	}
	for i := len(c.FS) - 1; i >= 0; i-- {
		e := c.FS[i]
		p := at(e.P)
		if cred != nil {
			must(os.Lchown(p, uid, uid))
		}
		switch e.K {
		case "file":
			must(os.Chmod(p, os.FileMode(e.Mode)))
			must(os.Chtimes(p, oldTime, oldTime))
		case "dir":
			must(os.Chmod(p, os.FileMode(e.Mode)))
		}
	}
	if cred != nil {
		must(os.Chown(root, uid, uid))
	}

	ctx, cancel := context.WithTimeout(context.Background(), 15*time.Second)
	defer cancel()
	var args []string
	for _, a := range c.Raw.Args {
		args = append(args, strings.NewReplacer("{ROOT}", root, "{BASE}", filepath.Base(root)).Replace(a))
	}
	cmd := exec.CommandContext(ctx, *flagCljfmt, args...)
	cmd.Dir = root
	cmd.Env = []string{}
	for _, e := range c.Raw.Env {
		cmd.Env = append(cmd.Env, strings.NewReplacer("{ROOT}", root, "{BASE}", filepath.Base(root)).Replace(e))
	}
	if cred != nil {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: cred}
	}
	var stdout, stderr bytes.Buffer
	cmd.Stderr = &stderr
	switch c.Raw.Stdout {
	case "full":
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		defer f.Close()
		cmd.Stdout = f
	case "readonly":
		f, err := os.Open("/dev/null")
		must(err)
		defer f.Close()
		cmd.Stdout = f
	default:
		cmd.Stdout = &stdout
	}
	if c.Inv.Stdin.K == "bad" {
		f, err := os.Open(root)
		must(err)
		defer f.Close()
		cmd.Stdin = f
	} else {
		cmd.Stdin = strings.NewReader(unatoms(c.Inv.Stdin.T))
	}
	err := cmd.Run()
	g := &c.Got
	g.How = "exit"
	if ctx.Err() != nil {
		g.How = "hang"
		sawHang = true
	} else if err != nil {
		if x, ok := err.(*exec.ExitError); !ok {
			if cmd.ProcessState == nil {
				fatal(err)
			}
			// The input was not read: that is its business.
		} else if !x.Exited() {
			g.How = "signal"
		}
	}
	g.OK = cmd.ProcessState != nil && cmd.ProcessState.Success()
	msg := stderr.String()
	if strings.Contains(msg, "goroutine ") && strings.Contains(msg, "panic") {
		g.How = "panic"
	}
	g.Err = strings.TrimSpace(msg) != ""
	g.Msg = strings.Replace(msg, root, "{ROOT}", -1)
	if len(g.Msg) > 400 {
		g.Msg = g.Msg[:400]
	}
	// What the message mentions.
	g.Named = []cliPath{}
	clean := msg
	for _, x := range []string{"/./", "//"} {
		for strings.Contains(clean, x) {
			clean = strings.Replace(clean, x, "/", -1)
		}
	}
	mention := func(p cliPath) {
		if s := p.String(); s != "" && strings.Contains(clean, s) {
			g.Named = append(g.Named, p)
		} else if s == "" {
			g.Named = append(g.Named, p)
		}
	}
	mention(cliPath{})
	for _, e := range c.FS {
		mention(e.P)
		if e.K == "link" {
			for _, f := range c.FS {
				if len(f.P) > len(e.To) && strings.HasPrefix(f.P.String(), e.To.String()+"/") {
					mention(append(append(cliPath{}, e.P...), f.P[len(e.To):]...))
				}
			}
		}
	}
	for _, a := range c.Inv.Args {
		mention(a)
	}
	for _, f := range c.Inv.Flags {
		if f.F == "c" {
			mention(f.P)
		}
	}
	// Standard output.
	g.Names, g.Text = []cliPath{}, []string{}
	list := false
	for _, f := range c.Inv.Flags {
		if f.F == "l" {
			list = f.V != "no"
		}
	}
	if out := stdout.String(); list && len(c.Inv.Args) > 0 {
		for out != "" {
			i := strings.IndexByte(out, '\n')
			if i < 0 {
				g.Text = mustAtoms(out)
				break
			}
			n := out[:i]
			out = out[i+1:]
			if !filepath.IsAbs(n) {
				n = filepath.Join(root, n)
			}
			if filepath.IsAbs(n) {
				if r, err := filepath.Rel(root, n); err == nil {
					n = r
				}
			}
			g.Names = append(g.Names, cpath(filepath.Clean(n)))
		}
	} else {
		g.Text = mustAtoms(out)
	}
	// The file system.
	g.After, g.Extra = []cliAfter{}, []string{}
	known := map[string]bool{}
	for _, e := range c.FS {
		p := at(e.P)
		known[p] = true
		a := cliAfter{P: e.P, T: []string{}}
		if fi, err := os.Lstat(p); err == nil {
			switch e.K {
			case "file":
				a.Same = fi.Mode().IsRegular() && fi.Mode().Perm() == os.FileMode(e.Mode)
				a.Touched = !fi.ModTime().Equal(oldTime)
				b, err := os.ReadFile(p)
				must(err)
				a.T = mustAtoms(string(b))
			case "dir":
				a.Same = fi.IsDir() && fi.Mode().Perm() == os.FileMode(e.Mode)
			default:
				a.Same = fi.Mode()&os.ModeSymlink != 0
			}
		}
		g.After = append(g.After, a)
	}
	for _, e := range c.FS {
		if e.K == "dir" {
			os.Chmod(at(e.P), 0755)
		}
	}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && p != root && !known[p] {
			r, _ := filepath.Rel(root, p)
			g.Extra = append(g.Extra, r)
		}
		return nil
	})
	return c
}

//
// Making invocations.
//

type cliGen struct {
	*Gen
	r      *rand.Rand
	c      *cliCase
	at     map[string]int
	dashes bool
	up     bool // spell the working directory with ..
}

func newCliGen(id int, r *rand.Rand, g *Gen) *cliGen {
	x := &cliGen{Gen: g, r: r, c: &cliCase{Id: id}, at: map[string]int{}}
	x.c.FS = []cliEntry{}
	x.c.Inv.Flags, x.c.Inv.Args = []cliFlag{}, []cliPath{}
	x.c.Inv.Src.Conf, x.c.Inv.Src.Home = []cliPath{}, []cliPath{}
	x.c.Inv.Stdin.K, x.c.Inv.Stdin.T = "text", []string{}
	x.c.Raw.Args, x.c.Raw.Env = []string{}, []string{}
	x.c.Raw.Stdout = "pipe"
	return x
}

func (x *cliGen) add(p string, e cliEntry) *cliEntry {
	if i, ok := x.at[p]; ok {
		return &x.c.FS[i]
	}
	if d := filepath.Dir(p); d != "." {
		if i, ok := x.at[d]; ok && x.c.FS[i].K != "dir" {
			return &x.c.FS[i]
		}
		x.dir(d)
		if i, ok := x.at[d]; !ok || x.c.FS[i].K != "dir" {
			return &cliEntry{}
		}
	}
	e.P = cpath(p)
	if e.T == nil {
		e.T = []string{}
	}
	if e.To == nil {
		e.To = cliPath{}
	}
	x.at[p] = len(x.c.FS)
	x.c.FS = append(x.c.FS, e)
	return &x.c.FS[len(x.c.FS)-1]
}

func (x *cliGen) dir(p string) *cliEntry {
	return x.add(p, cliEntry{K: "dir", R: true, W: true, X: true, Mode: 0755})
}

func (x *cliGen) file(p, text string) *cliEntry {
	m := []uint32{0644, 0644, 0600, 0755, 0640, 0664, 0606}[x.r.Intn(7)]
	return x.add(p, cliEntry{K: "file", T: mustAtoms(text), R: true, W: true, X: m&0100 != 0, Mode: m})
}

func (x *cliGen) link(p, to string) *cliEntry {
	return x.add(p, cliEntry{K: "link", To: cpath(to), R: true, W: true, X: true})
}

func (x *cliGen) bad(p string) *cliEntry {
	return x.add(p, cliEntry{K: "bad", R: true, W: true})
}

// chmod changes what a file or directory may be used for.
func (x *cliGen) chmod(e *cliEntry, mode uint32) {
	if !hasPermissions() {
		return
	}
	e.Mode = mode
	e.R, e.W, e.X = mode&0400 != 0, mode&0200 != 0, mode&0100 != 0
}

const revealing = "(ns a.b\n  (:use [z :only [q]] y)\n  (require c (b [d :as unused]) [w :refer [gone]])\n  (:import x.Y (k L)))\n\n\n\n(defn f\n  [x] (if a\n b c\n))\n(defmethod g\n :k [y]\n1)\n"

var brokenTexts = []string{"(", ")", "(a\n(b]\n", "\"abc", "#", "(a #(b #(c)))\n", "\\zz\n", "{a\n", "'", "x\n)\n"}

func formatted(s string) string {
	r := read(s, fullOpts)
	if r.tree == nil {
		return s
	}
	f := formatTree(r.tree, settings{})
	if f.how != "ok" {
		return s
	}
	return f.out
}

// text makes the text of a file.
func (x *cliGen) someText(s string) string {
	var t string
	switch x.r.Intn(10) {
	case 0:
		t = ""
	case 1:
		t = revealing
	case 2, 3:
		t = s
	case 4:
		t = x.Small()
	case 5:
		t = x.pick([]string{"(a\n  b)\n", "(a   b)\n", "a", "\n", ";c", "(defn f\n[x]\ny)\n", "  a\n", "{:a\n1\n:b\n2}\n", "a\n\n\n\nb\n", "(foo\n)\n", "(foo ; x\n)", "(ns a (:require [b :as c] a))\n", "a\r\nb\r\n"})
	default:
		t = formatted(x.pick([]string{s, revealing, "(a\nb)\n", "(defn f [x]\n  y)\n", x.Small()}))
	}
	if len(t) > 300 || !knownText(t) || read(t, fullOpts).tree == nil {
		t = x.pick([]string{"(a\nb)\n", "(a b)\n"})
	}
	return t
}

var cliNames = []string{"a.clj", "b.cljs", "c.cljc", "d.edn", "e.txt", ".f.clj", "g.CLJ", "h.clj~", "i", "j.clj.bak", "k.clj", "clj", "x.boot", "s p.clj", "é.clj",
	"project.clj", "A.clj", "a-b.clj", "a", "ab.clj", ".clj", "..clj", "a.b.clj", "z.cljx", "m.clj.edn", "n.", "_.clj", "~a.clj", ".#a.clj", "#a.clj", "a.clj.", "l.cljs2", "q.c"}
var cliDirs = []string{"src", "src/foo", "test", ".git", "d.clj", "src/.h", "a.d", "src/foo/bar", "b"}

func (x *cliGen) name() string {
	n := x.pick(cliNames)
	if x.r.Intn(3) > 0 {
		n = x.pick([]string{"a.clj", "b.cljs", "c.cljc", "d.edn", "k.clj", "z.clj", "m.clj", "B.clj"})
	}
	if x.r.Intn(2) == 0 {
		n = x.pick(cliDirs) + "/" + n
	}
	return n
}

// flag adds a flag in one of its spellings.
func (x *cliGen) flag(f, v, p string) {
	cf := cliFlag{F: f, V: v, P: cpath(p)}
	dash := x.pick([]string{"-", "-", "--"})
	val := func(name, v string) {
		if x.r.Intn(2) == 0 {
			x.c.Raw.Args = append(x.c.Raw.Args, dash+name, v)
		} else {
			x.c.Raw.Args = append(x.c.Raw.Args, dash+name+"="+v)
		}
	}
	switch f {
	case "l", "w":
		s := ""
		if v == "no" {
			s = "=false"
		} else if x.r.Intn(6) == 0 {
			s = "=true"
		}
		x.c.Raw.Args = append(x.c.Raw.Args, dash+f+s)
	case "c":
		if v == "empty" {
			val("c", "")
		} else {
			val("c", x.spell(p))
		}
	case "enable", "disable":
		n := v
		if l, ok := longNames[v]; ok {
			n = l
		}
		val(f+"-transform", n)
	default:
		x.c.Raw.Args = append(x.c.Raw.Args, v)
	}
	x.c.Inv.Flags = append(x.c.Inv.Flags, cf)
}

var longNames = map[string]string{
	"sort": "sort-import-require", "style": "enforce-ns-style", "trailing": "remove-trailing-newlines", "defn": "fix-defn-arglist-newline",
	"defmethod": "fix-defmethod-dispatch-val-newline", "blank": "remove-extra-blank-lines", "if": "fix-if-newline-consistency",
	"use": "use-to-require", "unused": "remove-unused-requires",
}

// spell writes a path in some way.
func (x *cliGen) spell(p string) string {
	if p == "" {
		if x.up && x.r.Intn(3) == 0 {
			// By way of some directory.
			for _, e := range x.c.FS {
				if e.K == "dir" && len(e.P) <= 2 && x.r.Intn(2) == 0 {
					return e.P.String() + strings.Repeat("/..", len(e.P))
				}
			}
		}
		return x.pick([]string{".", "./", "{ROOT}", "./.", "../{BASE}"})
	}
	switch x.r.Intn(9) {
	case 8:
		return "../{BASE}/" + p
	case 0:
		return "./" + p
	case 1:
		return "{ROOT}/" + p
	case 2:
		return strings.Replace(p, "/", "//", -1)
	case 3:
		return "././" + p
	}
	return p
}

func (x *cliGen) arg(p string) {
	s := x.spell(p)
	if i, ok := x.at[p]; ok && x.c.FS[i].K == "dir" && x.r.Intn(4) == 0 {
		s += "/"
	}
	x.c.Inv.Args = append(x.c.Inv.Args, cpath(p))
	x.c.Raw.Args = append(x.c.Raw.Args, s)
}

func (x *cliGen) env(home, conf string, hasHome, hasConf bool) {
	s := &x.c.Inv.Src
	if hasHome {
		s.Home = []cliPath{cpath(home)}
		h := x.pick([]string{"{ROOT}/" + home, home})
		x.c.Raw.Env = append(x.c.Raw.Env, "HOME="+h)
	}
	if hasConf {
		if conf == "" {
			s.Off = true
			x.c.Raw.Env = append(x.c.Raw.Env, "CLJFMT_CONFIG_PATH=")
		} else {
			s.Conf = []cliPath{cpath(conf)}
			x.c.Raw.Env = append(x.c.Raw.Env, "CLJFMT_CONFIG_PATH="+x.spell(conf))
		}
	}
}

func (x *cliGen) mode() {
	switch x.r.Intn(8) {
	case 0, 1:
		x.flag("l", "", "")
	case 2, 3:
		x.flag("w", "", "")
	case 4, 5:
		x.flag("l", "", "")
		x.flag("w", "", "")
	case 6:
		if x.r.Intn(3) == 0 {
			x.flag("l", "no", "")
			x.flag("w", x.pick([]string{"", "no"}), "")
		}
	}
}

func (x *cliGen) transformFlags(n int) {
	for i := 0; i < n; i++ {
		x.flag(x.pick([]string{"enable", "disable"}), x.pick(transformNames), "")
	}
}

// args adds the files of the case as arguments.
func (x *cliGen) someArgs(n int) {
	var ps []string
	for p := range x.at {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	if len(x.c.Inv.Args) == 0 && !x.dashes && x.r.Intn(10) == 0 {
		x.dashes = true
		x.c.Raw.Args = append(x.c.Raw.Args, "--")
	}
	for i := 0; i < n; i++ {
		if len(ps) == 0 || x.r.Intn(12) == 0 {
			x.arg("")
		} else {
			x.arg(ps[x.r.Intn(len(ps))])
		}
	}
}

func (x *cliGen) files(n int, s string) {
	for i := 0; i < n; i++ {
		x.file(x.name(), x.someText(s))
	}
}

func (x *cliGen) stdin(t string) {
	x.c.Inv.Stdin.T = mustAtoms(t)
}

// C27.
func (x *cliGen) good(s string) {
	x.env("home", "", true, false)
	x.dir("home")
	x.mode()
	if x.r.Intn(4) == 0 {
		x.transformFlags(1 + x.r.Intn(2))
	}
	if x.r.Intn(6) == 0 {
		x.stdin(x.someText(s))
		return
	}
	x.files(1+x.r.Intn(4), s)
	if x.r.Intn(5) == 0 {
		x.link(x.pick([]string{"ln.clj", "src/ln.clj", "ln"}), x.c.FS[len(x.c.FS)-1].P.String())
	}
	x.someArgs(1 + x.r.Intn(3))
}

// C28.
func (x *cliGen) faulty(s string) {
	x.env("home", "", true, false)
	x.dir("home")
	x.mode()
	if x.r.Intn(8) == 0 {
		switch x.r.Intn(4) {
		case 0:
			x.c.Inv.Stdin.K = "bad"
		case 1:
			x.stdin(x.pick(brokenTexts))
		default:
			x.stdin(x.someText(s))
			x.full()
		}
		return
	}
	x.files(1+x.r.Intn(3), s)
	d := ""
	if x.r.Intn(2) == 0 {
		d = x.pick([]string{"src/", "test/", "b/"})
	}
	n := d + x.pick([]string{"bad.clj", "aa.clj", "zz.cljs", "l.edn"})
	extra := ""
	switch x.r.Intn(11) {
	case 0, 1:
		x.file(n, x.pick(brokenTexts))
	case 2:
		x.chmod(x.file(n, x.someText(s)), 0200)
	case 3, 4:
		x.chmod(x.file(n, x.pick([]string{"(a\nb)\n", x.someText(s)})), 0444)
	case 5:
		x.link(n, "nowhere/else.clj")
	case 6:
		if _, err := os.Stat("/proc/self/mem"); err == nil {
			x.bad(n)
		}
	case 7:
		x.link(n, x.pick([]string{"src", "home"}))
		x.dir("src")
	case 8:
		x.full()
	case 9:
		extra = x.pick([]string{"missing.clj", "src/none.clj", "nodir", "nodir/x.clj", "-l"})
	case 10:
		dd := x.dir(d + "locked")
		if x.r.Intn(2) == 0 {
			x.file(d+"locked/in.clj", x.someText(s))
			dd = x.dir(d + "locked")
		}
		x.chmod(dd, []uint32{0, 0300, 0400, 0600, 0100, 0200}[x.r.Intn(6)])
	}
	x.files(x.r.Intn(2), s)
	k := x.r.Intn(3)
	x.someArgs(k)
	if _, ok := x.at[n]; ok {
		if d != "" && x.r.Intn(2) == 0 {
			x.arg(strings.TrimSuffix(d, "/"))
		} else if x.r.Intn(6) > 0 {
			x.arg(n)
		}
	}
	if extra != "" {
		if extra == "-l" {
			// Not a flag after a path.
			if len(x.c.Inv.Args) == 0 {
				x.arg("")
			}
			x.c.Inv.Args = append(x.c.Inv.Args, cpath(extra))
			x.c.Raw.Args = append(x.c.Raw.Args, extra)
		} else {
			x.arg(extra)
		}
	}
	x.someArgs(x.r.Intn(3))
	if len(x.c.Inv.Args) == 0 {
		x.arg("")
	}
}

func (x *cliGen) full() {
	x.c.Inv.Full = true
	x.c.Raw.Stdout = x.pick([]string{"full", "readonly"})
}

// C29.
func (x *cliGen) tree(s string) {
	x.up = true
	x.dir("home")
	x.env("home", "", true, false)
	if x.r.Intn(4) == 0 {
		var b strings.Builder
		b.WriteString("{:extensions " + x.pick([]string{"[", "["}))
		for i := x.r.Intn(4); i >= 0; i-- {
			b.WriteString(x.pick([]string{"\".clj\" ", "\".txt\"", "\".boot\" ", "\"\" ", "\"clj\" ", "\".\" ", "\".cljs\" ", "\".bak\"", "\".edn\" ", "\".CLJ\"", "\".cl\"", "\"j.clj\""}))
		}
		b.WriteString("]}")
		x.file("home/.cljfmt", b.String())
	}
	if x.r.Intn(4) > 0 {
		x.flag("l", "", "")
	}
	if x.r.Intn(3) > 0 {
		x.flag("w", "", "")
	}
	for i := 2 + x.r.Intn(8); i >= 0; i-- {
		n := x.pick(cliNames)
		for k := x.r.Intn(3); k > 0; k-- {
			n = x.pick([]string{"src", "a", ".git", "d.clj", "a.b", "test", ".h.clj", "foo", "a-b", "z"}) + "/" + n
		}
		x.file(n, x.pick([]string{"(a\nb)\n", "(a\nb)\n", "(a b)\n", "x", "", x.someText(s)}))
	}
	if x.r.Intn(4) == 0 {
		t := x.c.FS[x.r.Intn(len(x.c.FS))]
		x.link(x.pick([]string{"lnk", "lnk.clj", "src/lnk", "src/lnk.cljs", "foo/.lnk.clj"}), t.P.String())
		if t.K == "dir" && x.r.Intn(2) == 0 {
			x.link("dirlnk", t.P.String())
		}
	}
	for i := x.r.Intn(2); i >= 0; i-- {
		// Mostly directories.
		var ds, all []string
		for _, e := range x.c.FS {
			if e.K != "file" {
				ds = append(ds, e.P.String())
			}
			all = append(all, e.P.String())
		}
		switch {
		case x.r.Intn(3) == 0 || len(ds) == 0:
			x.arg("")
		case x.r.Intn(5) > 0:
			x.arg(x.pick(ds))
		default:
			x.arg(x.pick(all))
		}
	}
}

var cfgNames = []string{"foo", "x/foo", "a.b/m1", "m1", "GET", "cond", "let", "->", "-?>", "doto", "if", "my.ns/sel", "s/sel", "sel", "with-x", ""}

// confText makes a configuration.
func (x *cliGen) confText() string {
	names := func() string {
		k := x.r.Intn(4)
		if k > 0 {
			return fmt.Sprintf("%q", x.pick(cfgNames))
		}
		var b strings.Builder
		o := x.pick([]string{"[]", "()"})
		b.WriteByte(o[0])
		for i := x.r.Intn(4); i > 0; i-- {
			b.WriteString(fmt.Sprintf("%q ", x.pick(cfgNames)))
		}
		b.WriteByte(o[1])
		return b.String()
	}
	seq := func(n int, f func() string) string {
		o := x.pick([]string{"[]", "()", "[]", "()", "[]", "{}"})
		if x.r.Intn(8) > 0 {
			o = "[]"
		}
		var b strings.Builder
		b.WriteByte(o[0])
		for i := 0; i < n; i++ {
			b.WriteString(f())
			b.WriteString(x.pick([]string{" ", "\n", " ; c\n ", ", "}))
		}
		b.WriteByte(o[1])
		return b.String()
	}
	odd := func(s string) string {
		if x.r.Intn(40) == 0 {
			return x.pick([]string{":let", "foo", "7", "nil", "#\"x\"", "\"x\"", "[]", "'x", "\\a", ":bogus"})
		}
		return s
	}
	var b strings.Builder
	b.WriteString(x.pick([]string{"", "", "", "; a comment\n", "\n"}))
	b.WriteString("{")
	for i := 1 + x.r.Intn(3); i > 0; i-- {
		switch x.r.Intn(7) {
		case 0, 1:
			b.WriteString(":extensions " + odd(seq(x.r.Intn(4), func() string {
				return odd(x.pick([]string{"\".clj\"", "\".cljs\"", "\".txt\"", "\".boot\"", "\"\"", "\".x\""}))
			})))
		case 2, 3, 4:
			b.WriteString(":indent-overrides " + odd(seq(x.r.Intn(3), func() string {
				st := x.pick([]string{":normal", ":list", ":list-body", ":let", ":letfn", ":for", ":deftype", ":cond0", ":cond1", ":cond2", ":cond4"})
				if x.r.Intn(20) == 0 {
					st = x.pick([]string{":cond3", ":cond->", ":bogus", "::let", ":Let", "let", "\":let\""})
				}
				return odd(names()) + " " + odd(st)
			})))
		case 5:
			b.WriteString(":thread-first-overrides " + odd(seq(x.r.Intn(3), func() string {
				st := x.pick([]string{":normal", ":cond->"})
				if x.r.Intn(12) == 0 {
					st = x.pick([]string{":list", ":cond->>", ":bogus"})
				}
				return odd(names()) + " " + odd(st)
			})))
		case 6:
			switch x.r.Intn(8) {
			case 0:
				b.WriteString(x.pick([]string{":bogus 1", ":extension []", "::extensions []", ":indent-override []", ":thread-first []"}))
			case 1:
				b.WriteString(x.pick([]string{"\"k\" 1", "k {}", "[] []", ":extensions"}))
			case 2:
				b.WriteString("#_:x #_:y ")
			}
		}
		b.WriteString(x.pick([]string{" ", "\n ", ", "}))
	}
	b.WriteString("}")
	b.WriteString(x.pick([]string{"", "\n", "\n; done"}))
	s := b.String()
	switch x.r.Intn(24) {
	case 3, 4, 5, 6, 7, 8, 9, 10:
		s = x.mutateConf(s)
	case 0:
		s = x.pick([]string{"", " \n", "; nothing\n", "{}", "[]", "nil", "{} {}", "#{}", "#:a{:extensions []}", "{", "}", "{:extensions}", "#_{} {}", "^:a {}", "'{}", "\\zz", "\"", "{:extensions [\".clj\"]} x", "(comment)"})
	case 1:
		s = s[:x.r.Intn(len(s)+1)]
	case 2:
		s += x.pick([]string{" {}", ")", "\"", " :x", " ;c"})
	}
	return s
}

// mutateConf makes one change (or two) to a configuration.
func (x *cliGen) mutateConf(s string) string {
	toks := confTokens.FindAllString(s, -1)
	var atoms, opens []int
	for i, t := range toks {
		switch {
		case strings.Contains("([{", t):
			opens = append(opens, i)
		case strings.Contains(")]}", t) || t[0] == ';' || strings.TrimSpace(t) == "" || t == ",":
		default:
			atoms = append(atoms, i)
		}
	}
	other := func() string {
		return x.pick([]string{":let", ":list", ":extensions", ":indent-overrides", ":thread-first-overrides", ":cond->", ":bogus",
			"\"foo\"", "\"x\"", "\".x\"", "foo", "7", "nil", "true", "#\"x\"", "[]", "()", "{}", "#{}", "#()", "\\a", "#'x",
			"#{\"foo\"}", "[\"foo\"]", "(\"foo\")", "{\"foo\" \"m1\"}", "#(\"foo\")", "[[\"foo\"]]", "[:let]", "\"\""})
	}
	for n := 1 + x.r.Intn(5)/4; n > 0; n-- {
		if len(atoms) == 0 || x.r.Intn(3) == 0 {
			// Another kind of brackets.
			if len(opens) == 0 {
				continue
			}
			i := opens[x.r.Intn(len(opens))]
			depth, j := 0, i
			for ; j < len(toks); j++ {
				if toks[j] != "" && strings.Contains("([{", toks[j]) {
					depth++
				} else if toks[j] != "" && strings.Contains(")]}", toks[j]) {
					if depth--; depth == 0 {
						break
					}
				}
			}
			if j == len(toks) {
				continue
			}
			o := x.pick([]string{"()", "[]", "{}", "#{}", "#{}", "#()", "#?()", "'[]", "#_[]", "^[]", "@[]", "#:a{}", "#=()"})
			toks[i], toks[j] = o[:len(o)-1], o[len(o)-1:]
			continue
		}
		i := atoms[x.r.Intn(len(atoms))]
		switch x.r.Intn(6) {
		case 0:
			toks[i] = ""
		case 1:
			toks[i] = other()
		case 2:
			toks[i] += " " + other()
		case 3:
			toks[i] += " " + toks[i]
		case 4:
			toks[i] = x.pick([]string{"'", "#_", "^:m ", "#t ", "@", "~", "#=", "`"}) + toks[i]
		case 5:
			j := atoms[x.r.Intn(len(atoms))]
			toks[i], toks[j] = toks[j], toks[i]
		}
	}
	return strings.Join(toks, "")
}

var confTokens = regexp.MustCompile(`"[^"]*"|;[^\n]*|[()\[\]{}]|[\s,]+|[^()\[\]{}"\s,;]+|.`)

// probe makes a text whose layout shows the styles of names.
func (x *cliGen) probe() string {
	var b strings.Builder
	if x.r.Intn(3) == 0 {
		b.WriteString("(ns p (:require [a.b :as x] [my.ns :as s :refer [sel]]))\n")
	}
	for i := 1 + x.r.Intn(3); i > 0; i-- {
		n := x.pick(cfgNames)
		if n == "" {
			n = "y/GET"
		}
		call := "(" + n + " " + x.pick([]string{"[a\nb]", "p", "[p\n(q\nr)]", "[(m []\nn)]"}) + " " + x.pick([]string{"q\nr\ns\nt\nu", "(q\nr\ns)\n(t\nu\nv)", "\nr\ns\nt\nu\nv"}) + ")"
		if x.r.Intn(3) == 0 {
			call = "(" + x.pick([]string{"->", "-?>", "doto", "GET", "foo"}) + " x\n" + call + "\n" + call + ")"
		}
		b.WriteString(call + "\n")
	}
	return b.String()
}

// C30.
func (x *cliGen) conf(s string) {
	t := x.confText()
	x.dir("home")
	p := x.pick([]string{"home/.cljfmt", "conf.clj", "src/c.edn"})
	x.file(p, t)
	switch {
	case p == "home/.cljfmt":
		x.env("home", "", true, false)
	case x.r.Intn(2) == 0:
		x.env("home", p, true, true)
	default:
		x.env("home", "", true, false)
		x.flag("c", "", p)
	}
	x.mode()
	if x.r.Intn(4) == 0 {
		x.stdin(x.probe())
		return
	}
	for _, n := range []string{"a.clj", "b.txt", "c.boot", "d", "e.cljs", "f.x"} {
		if x.r.Intn(2) == 0 {
			x.file("src/"+n, x.probe())
		}
	}
	x.dir("src")
	x.arg("src")
	if x.r.Intn(3) == 0 {
		x.someArgs(1)
	}
}

// C31.
func (x *cliGen) sources(s string) {
	x.dir("home")
	conf := func(p string) {
		switch x.r.Intn(6) {
		case 0: // missing
		case 1:
			x.file(p, x.pick([]string{"{", "", "{:bogus 1}"}))
		case 2:
			e := x.file(p, "{:extensions [\".no\"]}")
			if x.r.Intn(4) == 0 {
				x.chmod(e, 0200)
			}
		default:
			x.file(p, x.pick([]string{"{:extensions [\".txt\"]}", "{:extensions [\".cljs\"]}", "{:indent-overrides [\"foo\" :let]}", "{:indent-overrides [\"foo\" :cond0]}", "{:indent-overrides [\"foo\" :list-body]}", "{:thread-first-overrides [\"foo\" :normal]}"}))
		}
	}
	conf("home/.cljfmt")
	conf("one.clj")
	conf("two.edn")
	if x.r.Intn(6) == 0 {
		conf(".cljfmt")
	}
	x.dir("cfgdir")
	hasHome := x.r.Intn(6) > 0
	home := "home"
	if x.r.Intn(8) == 0 {
		home = x.pick([]string{"nohome", "cfgdir"})
	}
	env := x.pick([]string{"one.clj", "one.clj", "two.edn", "", "none.clj", "cfgdir"})
	x.env(home, env, hasHome, x.r.Intn(2) == 0)
	var todo []func()
	for i := []int{0, 0, 0, 1, 1, 2}[x.r.Intn(6)]; i > 0; i-- {
		todo = append(todo, func() {
			switch x.r.Intn(8) {
			case 0:
				x.flag("c", "empty", "")
			case 1:
				x.flag("c", "", "none.clj")
			default:
				x.flag("c", "", x.pick([]string{"one.clj", "two.edn", "home/.cljfmt"}))
			}
		})
	}
	for i := x.r.Intn(5); i > 0; i-- {
		todo = append(todo, func() { x.transformFlags(1) })
	}
	todo = append(todo, func() { x.mode() })
	if x.r.Intn(12) == 0 {
		todo = append(todo, func() {
			switch x.r.Intn(3) {
			case 0:
				x.flag(x.pick([]string{"enable", "disable"}), x.pick([]string{"sort", "bogus", "", "Sort-import-require", "sort-import-require ", "remove-unused-require"}), "")
				// The names of the specification are not those of cljfmt.
				f := &x.c.Inv.Flags[len(x.c.Inv.Flags)-1]
				if l, ok := longNames[f.V]; ok {
					for i, a := range x.c.Raw.Args {
						if strings.HasSuffix(a, l) {
							x.c.Raw.Args[i] = strings.TrimSuffix(a, l) + f.V
						}
					}
					f.V = "short " + f.V
				}
			default:
				x.flag("?", x.pick([]string{"-x", "--list", "-write", "-l=maybe", "-enable"}), "")
			}
		})
	}
	x.r.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	for _, f := range todo {
		f()
	}
	text := func() string {
		return x.pick([]string{revealing, revealing, "(foo [a\nb]\nc\n(d\ne))\n(foo x\n(cond a\nb\nc\nd))\n", "(foo a\nb\nc)\n" + revealing})
	}
	if x.r.Intn(5) == 0 {
		x.stdin(text())
		return
	}
	x.dir("src")
	for _, n := range []string{"a.clj", "b.txt", "c.cljs"} {
		if x.r.Intn(3) > 0 {
			x.file("src/"+n, text())
		}
	}
	x.arg("src")
	if x.r.Intn(3) == 0 {
		x.file("t.clj", text())
		x.arg("t.clj")
	}
}

func init() {
	for name, f := range map[string]func(*cliGen, string){
		"cli": (*cliGen).good, "clifail": (*cliGen).faulty, "clidir": (*cliGen).tree, "cliconf": (*cliGen).conf, "cliflags": (*cliGen).sources,
	} {
		f := f
		kinds[name] = &kind{text: mixed((*Gen).Small, (*Gen).File, (*Gen).NS, (*Gen).Defs), maxLen: 200,
			record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
				x := newCliGen(id, r, g)
				f(x, s)
				return runCli(x.c)
			},
			replay: func(id int, b []byte) interface{} {
				var c cliCase
				if err := json.Unmarshal(b, &c); err != nil {
					fatal(err)
				}
				c.Id = id
				return runCli(&c)
			}}
	}
}
