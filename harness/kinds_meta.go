package main

import (
	"encoding/json"
	"math/rand"
	"strings"
)

// protected tells for each byte of s whether it belongs to a string, comment
// or character literal, and how deep it is nested. (A rough scanner: the
// specification decides whether two texts have the same nodes.)
func protected(s string) (prot []bool, depth []int) {
	prot = make([]bool, len(s))
	depth = make([]int, len(s))
	d := 0
	for i := 0; i < len(s); i++ {
		depth[i] = d
		switch c := s[i]; {
		case c == '(' || c == '[' || c == '{':
			d++
		case c == ')' || c == ']' || c == '}':
			d--
		case c == '\\':
			prot[i] = true
			if i+1 < len(s) {
				i++
				prot[i], depth[i] = true, d
			}
		case c == ';' || c == '"':
			end := byte('\n')
			if c == '"' {
				end = '"'
				prot[i] = true
				i++
			}
			for ; i < len(s) && s[i] != end; i++ {
				prot[i], depth[i] = true, d
				if c == '"' && s[i] == '\\' && i+1 < len(s) {
					i++
					prot[i], depth[i] = true, d
				}
			}
			if i < len(s) {
				depth[i] = d
				prot[i] = c == '"'
			}
		}
	}
	return
}

// reblank changes the blanks of s.
func reblank(r *rand.Rand, s string) string {
	prot, _ := protected(s)
	run := func(min int) string {
		n := min + r.Intn(4)
		if r.Intn(10) == 0 {
			n += r.Intn(70)
		}
		kind := r.Intn(4)
		var b strings.Builder
		for i := 0; i < n; i++ {
			switch {
			case kind == 0 && r.Intn(2) == 0:
				b.WriteByte('\t')
			case kind == 1 && r.Intn(2) == 0:
				b.WriteByte(',')
			default:
				b.WriteByte(' ')
			}
		}
		return b.String()
	}
	mode := r.Intn(4)
	var b strings.Builder
	isBlank := func(c byte) bool { return c == ' ' || c == '\t' || c == ',' }
	tight := func(c byte) bool { return strings.IndexByte("()[]{}\n\"", c) >= 0 }
	for i := 0; i < len(s); {
		if prot[i] {
			b.WriteByte(s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && !prot[j] && isBlank(s[j]) {
			j++
		}
		free := i == 0 || j == len(s) || tight(s[i-1]) || tight(s[j])
		switch {
		case j > i && mode == 0 && free: // no blanks
		case j > i && mode == 1 && r.Intn(3) > 0:
			b.WriteString(s[i:j])
		case j > i && free:
			b.WriteString(run(0))
		case j > i:
			b.WriteString(run(1))
		case free && mode > 0 && r.Intn(3) == 0:
			b.WriteString(run(0))
		case mode == 3 && r.Intn(30) == 0:
			b.WriteString(run(1))
		}
		if j == i {
			b.WriteByte(s[i])
			j++
		}
		i = j
	}
	return b.String()
}

type blanksCase struct {
	fmtCase
	T2 []string `json:"t2"`
}

func makeBlanks(id int, s, s2 string, set settings) interface{} {
	if !knownText(s2) || s == s2 {
		return nil
	}
	c, ok := makeFmtCase(id, s, set)
	if !ok {
		return nil
	}
	d, ok := makeFmtCase(id, s2, set)
	if !ok {
		return nil
	}
	c.Out2, c.How2 = d.Out, d.How
	return &blanksCase{c, mustAtoms(s2)}
}

// piecesCase is a text put together from several (the first may be empty,
// and takes part in all).
type piecesCase struct {
	fmtCase
	Ps  [][]string `json:"ps"`
	Sep []string   `json:"sep"`
	Os  [][]string `json:"os"`
}

func makePieces(id int, ps []string, sep string, set settings) interface{} {
	join := func(ps ...string) string {
		if ps[0] == "" {
			ps = ps[1:]
		}
		return strings.Join(ps, sep)
	}
	c, ok := makeFmtCase(id, join(ps...), set)
	if !ok {
		return nil
	}
	pc := &piecesCase{fmtCase: c, Sep: mustAtoms(sep)}
	for i, p := range ps {
		pc.Ps = append(pc.Ps, mustAtoms(p))
		t := join(ps[0], p)
		if i == 0 {
			t = p
		}
		d, ok := makeFmtCase(id, t, set)
		if !ok {
			return nil
		}
		if d.How != "ok" {
			pc.How = d.How
		}
		pc.Os = append(pc.Os, d.Out)
	}
	return pc
}

// chunks splits a text at the line breaks outside all forms.
func chunks(s string) (out []string) {
	prot, depth := protected(s)
	j := 0
	add := func(x string) {
		if x = strings.Trim(x, " \t,\n"); x != "" {
			out = append(out, x)
		}
	}
	for i := range s {
		if s[i] == '\n' && !prot[i] && depth[i] == 0 {
			add(s[j:i])
			j = i + 1
		}
	}
	add(s[j:])
	return
}

func init() {
	text := kinds["toggle"].text
	kinds["blanks"] = &kind{text: text, maxLen: 400,
		fixed: func(v *vocab, thorough bool, f func(string)) {
			i := 0
			some := func(s string) {
				if i++; thorough || i%3 == 0 {
					f(s)
				}
			}
			for _, t := range transformNames {
				transformFixed(t, v, false, some)
			}
			layoutFixed(v, false, some)
		},
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := settingsFor(s, r, g, transformNames)
			return makeBlanks(id, s, reblank(r, s), set)
		},
		replay: func(id int, b []byte) interface{} {
			var c blanksCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			return makeBlanks(id, unatoms(c.T), unatoms(c.T2), settingsOf(&c.fmtCase))
		}}
	kinds["pieces"] = &kind{text: mixed(text, (*Gen).Linked), maxLen: 300, fixed: kinds["blanks"].fixed,
		record: func(id int, s string, r *rand.Rand, g *Gen) interface{} {
			set := settingsFor(s, r, g, transformNames)
			cs := []string{}
			ps := []string{""}
			for _, c := range chunks(s) {
				if !strings.HasPrefix(c, "(ns") {
					cs = append(cs, c)
				} else if ps[0] == "" {
					// The rest is formatted in the light of it.
					ps[0] = c
					delete(set.on, "unused")
				}
			}
			if ps[0] == "" && r.Intn(2) == 0 {
				if ns := strings.Trim(g.NS(), " \t,\n"); len(ns) < 200 && knownText(ns) {
					ps[0] = ns
					set = settingsFor(ns+s, r, g, transformNames[:8])
				}
			}
			for len(cs) > 1 && len(ps) < 4 {
				n := 1 + r.Intn(len(cs)-1)
				ps = append(ps, strings.Join(cs[:n], "\n"))
				cs = cs[n:]
			}
			if len(cs) > 0 {
				ps = append(ps, strings.Join(cs, "\n"))
			}
			for len(ps) < 3 {
				var x string
				switch r.Intn(5) {
				case 0:
					x = anyNode[r.Intn(len(anyNode))]
				case 1:
					x = s
				default:
					x = text(g)
				}
				if x = strings.Trim(x, " \t,\n"); x == "" || strings.HasPrefix(x, "(ns") || len(x) > 300 || !knownText(x) {
					x = ";c"
				}
				ps = append(ps, x)
			}
			return makePieces(id, ps, strings.Repeat("\n", 1+r.Intn(2)), set)
		},
		replay: func(id int, b []byte) interface{} {
			var c piecesCase
			if err := json.Unmarshal(b, &c); err != nil {
				fatal(err)
			}
			var ps []string
			for _, p := range c.Ps {
				ps = append(ps, unatoms(p))
			}
			return makePieces(id, ps, unatoms(c.Sep), settingsOf(&c.fmtCase))
		}}
}
