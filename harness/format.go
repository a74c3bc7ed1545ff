package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

var styleByName = map[string]format.IndentStyle{
	"normal":  format.IndentNormal,
	"list":    format.IndentList,
	"body":    format.IndentListBody,
	"let":     format.IndentLet,
	"letfn":   format.IndentLetfn,
	"for":     format.IndentFor,
	"deftype": format.IndentDeftype,
	"cond0":   format.IndentCond0,
	"cond1":   format.IndentCond1,
	"cond2":   format.IndentCond2,
	"cond4":   format.IndentCond4,
}

var styleNames = func() []string {
	var s []string
	for k := range styleByName {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}()

var tfByName = map[string]format.ThreadFirstStyle{
	"normal": format.ThreadFirstNormal,
	"cond->": format.ThreadFirstCondArrow,
}

var transformNames = []string{"sort", "style", "trailing", "defn", "defmethod", "blank", "if", "use", "unused"}

var transformByName = map[string]format.Transform{
	"sort":      format.TransformSortImportRequire,
	"style":     format.TransformEnforceNSStyle,
	"trailing":  format.TransformRemoveTrailingNewlines,
	"defn":      format.TransformFixDefnArglistNewline,
	"defmethod": format.TransformFixDefmethodDispatchValNewline,
	"blank":     format.TransformRemoveExtraBlankLines,
	"if":        format.TransformFixIfNewlineConsistency,
	"use":       format.TransformUseToRequire,
	"unused":    format.TransformRemoveUnusedRequires,
}

// settings are what a printer is configured with.
type settings struct {
	over map[string]string // name -> style
	tf   map[string]string
	on   map[string]bool // transform -> on; those missing are left at their default
	ic   rune            // 0: default
}

func onlyTransforms(names ...string) settings {
	s := settings{on: map[string]bool{}}
	for _, n := range transformNames {
		s.on[n] = false
	}
	for _, n := range names {
		s.on[n] = true
	}
	return s
}

func (s settings) apply(p *format.Printer) {
	if s.ic != 0 {
		p.IndentChar = s.ic
	}
	if s.over != nil {
		p.IndentOverrides = map[string]format.IndentStyle{}
		for k, v := range s.over {
			p.IndentOverrides[k] = styleByName[v]
		}
	}
	if s.tf != nil {
		p.ThreadFirstStyleOverrides = map[string]format.ThreadFirstStyle{}
		for k, v := range s.tf {
			p.ThreadFirstStyleOverrides[k] = tfByName[v]
		}
	}
	if s.on != nil {
		p.Transforms = map[format.Transform]bool{}
		for k, v := range s.on {
			p.Transforms[transformByName[k]] = v
		}
	}
}

func pairsJSON(m map[string]string) []interface{} {
	out := []interface{}{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, []interface{}{mustAtoms(k), m[k]})
	}
	return out
}

func setJSON(m map[string]bool) []interface{} {
	out := []interface{}{}
	for _, n := range transformNames {
		if on, ok := m[n]; ok {
			out = append(out, []interface{}{n, on})
		}
	}
	return out
}

// settingsOf recovers the settings of a recorded case.
func settingsOf(c *fmtCase) settings {
	s := settings{on: map[string]bool{}}
	pairs := func(ps []interface{}) map[string]string {
		if len(ps) == 0 {
			return nil
		}
		m := map[string]string{}
		for _, p := range ps {
			q := p.([]interface{})
			var a []string
			switch l := q[0].(type) {
			case []string:
				a = l
			case []interface{}:
				for _, x := range l {
					a = append(a, x.(string))
				}
			}
			m[unatoms(a)] = q[1].(string)
		}
		return m
	}
	s.over, s.tf = pairs(c.Over), pairs(c.TF)
	for _, p := range c.Set {
		q := p.([]interface{})
		s.on[q[0].(string)] = q[1].(bool)
	}
	if c.IC != " " {
		s.ic = []rune(unatoms([]string{c.IC}))[0]
	}
	return s
}

func onJSON(m map[string]bool) []string {
	out := []string{}
	for _, n := range transformNames {
		on, ok := m[n]
		if ok && on || !ok && defaultOn(n) {
			out = append(out, n)
		}
	}
	return out
}

type fmtResult struct {
	out  string
	how  string // "ok", "error: ...", "panic: ...", "hang"
	tree *parse.Tree
}

func formatTree(t *parse.Tree, s settings) fmtResult {
	ch := make(chan fmtResult, 1)
	go func() {
		var b bytes.Buffer
		r := fmtResult{how: "ok"}
		defer func() {
			if e := recover(); e != nil {
				r.how = "panic: " + fmt.Sprint(e)
			}
			r.out = b.String()
			r.tree = t
			ch <- r
		}()
		p := format.NewPrinter(&b)
		s.apply(p)
		if err := p.PrintTree(t); err != nil {
			r.how = "error: " + err.Error()
		}
	}()
	timer := time.NewTimer(8 * time.Second)
	defer timer.Stop()
	select {
	case r := <-ch:
		return r
	case <-timer.C:
		sawHang = true
		return fmtResult{how: "hang"}
	}
}

// formatText reads and formats src. ok is false if src cannot be read.
func formatText(src string, s settings) (r fmtResult, ok bool) {
	rd := read(src, fullOpts)
	if rd.tree == nil {
		return fmtResult{}, false
	}
	return formatTree(rd.tree, s), true
}

type fmtCase struct {
	Id   int           `json:"id"`
	T    []string      `json:"t"`
	Over []interface{} `json:"over"`
	TF   []interface{} `json:"tf"`
	On   []string      `json:"on"`
	Set  []interface{} `json:"set"` // transforms mentioned in the settings
	IC   string        `json:"ic"`
	Out  []string      `json:"o"`
	How  string        `json:"how"`
	Out2 []string      `json:"o2"`
	How2 string        `json:"how2"`
}

func makeFmtCase(id int, src string, s settings) (fmtCase, bool) {
	r, ok := formatText(src, s)
	if !ok {
		return fmtCase{}, false
	}
	ic := " "
	if s.ic != 0 {
		ic = string(s.ic)
	}
	how := r.how
	if i := strings.Index(how, ":"); i > 0 {
		how = how[:i]
	}
	return fmtCase{Id: id, T: mustAtoms(src), Over: pairsJSON(s.over), TF: pairsJSON(s.tf), On: onJSON(s.on), Set: setJSON(s.on),
		IC: mustAtoms(ic)[0], Out: mustAtoms(r.out), How: how, Out2: []string{}}, true
}

// formatAgain formats the output of c once more.
func (c *fmtCase) formatAgain(s settings) {
	r2, ok := formatText(unatoms(c.Out), s)
	if !ok {
		r2.how = "unreadable"
	}
	c.How2 = strings.SplitN(r2.how, ":", 2)[0]
	c.Out2 = mustAtoms(r2.out)
}

func replayFmt(again bool) func(id int, b []byte) interface{} {
	return func(id int, b []byte) interface{} {
		var c fmtCase
		if err := json.Unmarshal(b, &c); err != nil {
			fatal(err)
		}
		set := settingsOf(&c)
		n, ok := makeFmtCase(id, unatoms(c.T), set)
		if !ok {
			return nil
		}
		if again {
			n.formatAgain(set)
		}
		return &n
	}
}
