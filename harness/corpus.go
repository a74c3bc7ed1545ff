package main

import (
	"go/ast"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

// literals collects the string, character and integer literals of the
// repository's Go sources, so that names and sizes which the code (or a change
// to it) mentions take part in the generated texts.
func literals() (strs []string, ints []int) {
	set := map[string]bool{}
	iset := map[int]bool{}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, 0)
		if err != nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			l, ok := n.(*ast.BasicLit)
			if !ok {
				return true
			}
			s := l.Value
			switch l.Kind {
			case token.STRING:
				if u, err := strconv.Unquote(s); err == nil {
					s = u
				}
			case token.CHAR:
				if r, _, _, err := strconv.UnquoteChar(s[1:len(s)-1], '\''); err == nil {
					s = string(r)
				}
			case token.INT:
				if n, err := strconv.ParseInt(s, 0, 32); err == nil && n > 2 && n < 5000 {
					iset[int(n)] = true
				}
				return true
			default:
				return true
			}
			if len(s) > 0 && len(s) < 60 && knownText(s) {
				set[s] = true
			}
			return true
		})
		return nil
	})
	for s := range set {
		strs = append(strs, s)
	}
	sort.Strings(strs)
	for n := range iset {
		ints = append(ints, n)
	}
	sort.Ints(ints)
	return
}

// vocab is what the generators draw from.
type vocab struct {
	syms, kws []string
	ints      []int
	seeds     []string
}

func loadVocab() *vocab {
	v := &vocab{}
	strs, ints := literals()
	for _, s := range strs {
		if isSymbolText(s) {
			v.syms = append(v.syms, s)
		} else if isKeywordText(s) {
			v.kws = append(v.kws, s)
		}
	}
	v.ints = ints
	v.seeds = seedTexts()
	return v
}

func (v *vocab) gen(seed int64) *Gen {
	g := NewGen(seed)
	g.dict, g.kws, g.ints = v.syms, v.kws, v.ints
	return g
}

func isSymbolText(s string) bool {
	if s == "" || strings.ContainsAny(s, " \n\t\r,\";@^~()[]{}\\#:'`/%.") || s[0] >= '0' && s[0] <= '9' {
		return false
	}
	return true
}

func isKeywordText(s string) bool {
	return len(s) > 1 && s[0] == ':' && isSymbolText(s[1:])
}

// seedTexts are the fixtures of the repository, whole and by top-level form.
func seedTexts() []string {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if knownText(s) && !seen[s] && len(s) > 0 {
			seen[s] = true
			out = append(out, s)
		}
	}
	filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		switch filepath.Ext(p) {
		case ".clj", ".cljs", ".cljc", ".edn", ".before", ".after":
		default:
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		s := string(b)
		if len(s) < 3000 {
			add(s)
		}
		for _, part := range strings.Split(s, "\n\n") {
			if len(part) < 1500 {
				add(part)
				add(part + "\n")
			}
		}
		return nil
	})
	return out
}

// exhaustive lists all texts over the alphabet with lengths lo..hi.
func exhaustive(alphabet []string, lo, hi int, f func(string)) {
	var rec func(prefix string, k int)
	rec = func(prefix string, k int) {
		if k == 0 {
			f(prefix)
			return
		}
		for _, a := range alphabet {
			rec(prefix+a, k-1)
		}
	}
	for k := lo; k <= hi; k++ {
		rec("", k)
	}
}

var mutAtoms = []string{
	" ", "\n", "(", ")", "[", "]", "{", "}", "#", "'", "`", "~", "@", "^", ";", "\"", "\\", ":", "_", "?", "=", "!", "<",
	"a", "o", "u", "0", "1", "7", "+", "-", "/", ".", "%", ",", "\r", "\t", "nil", "true", "#_", "#(", "#{", "#?", "#?@", "#:", "#'",
	"#\"", "#^", "#=", "#!", "~@", "\\newline", "\\u0041", "\\o101", "é", "世", "\u00a0", "\u2003", "\U0001F600", ";c\n", "comment ", "ns ", "(comment ", "#<",
}

var nameRE = regexp.MustCompile("[^\\s()\\[\\]{}\"';,@~^`#\\\\]+")

// rename makes a name in s the same as another, here and there or throughout.
func rename(r *rand.Rand, s string) string {
	at := nameRE.FindAllStringIndex(s, 200)
	if len(at) < 2 {
		return s
	}
	a, b := at[r.Intn(len(at))], at[r.Intn(len(at))]
	from, to := s[a[0]:a[1]], s[b[0]:b[1]]
	all := r.Intn(2) == 0
	var out strings.Builder
	last := 0
	for _, x := range at {
		if x[0] == a[0] || all && s[x[0]:x[1]] == from {
			out.WriteString(s[last:x[0]] + to)
			last = x[1]
		}
	}
	return out.String() + s[last:]
}

// mutate changes a text in a few random places.
func mutate(r *rand.Rand, s string, pool []string) string {
	for k := 1 + r.Intn(3); k > 0; k-- {
		rs := []rune(s)
		n := len(rs)
		i := r.Intn(n + 1)
		switch r.Intn(8) {
		case 0, 1: // insert
			s = string(rs[:i]) + mutAtoms[r.Intn(len(mutAtoms))] + string(rs[i:])
		case 2: // delete
			if n > 0 {
				j := i + 1 + r.Intn(3)
				if j > n {
					j = n
				}
				s = string(rs[:i]) + string(rs[j:])
			}
		case 3: // replace
			if i < n {
				s = string(rs[:i]) + mutAtoms[r.Intn(len(mutAtoms))] + string(rs[i+1:])
			}
		case 4: // truncate
			s = string(rs[:i])
		case 5: // duplicate a part
			j := i + r.Intn(12)
			if j > n {
				j = n
			}
			s = string(rs[:j]) + string(rs[i:])
		case 6: // splice
			if len(pool) > 0 {
				o := []rune(pool[r.Intn(len(pool))])
				a := r.Intn(len(o) + 1)
				b := a + r.Intn(20)
				if b > len(o) {
					b = len(o)
				}
				s = string(rs[:i]) + string(o[a:b]) + string(rs[i:])
			}
		case 7:
			s = rename(r, s)
		}
	}
	return s
}
