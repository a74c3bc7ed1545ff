package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"os"
	"strings"
)

// A kind says how to make and record the cases of some check.
type kind struct {
	// text makes a fresh text.
	text func(g *Gen) string
	// fixed lists texts that always take part (spread over the shards).
	fixed func(v *vocab, thorough bool, f func(string))
	// maxLen bounds the length of texts.
	maxLen int
	// bytes allows texts outside the known alphabet.
	bytes bool
	// record runs a text through the code under test. It returns nil if
	// the text isn't suitable.
	record func(id int, text string, r *rand.Rand, g *Gen) interface{}
	// replay records a case again, given its record.
	replay func(id int, b []byte) interface{}
}

var kinds = map[string]*kind{}

func init() {
	commands["record"] = cmdRecord
	commands["replay"] = cmdReplay
}

// cmdReplay records the cases of a file again, -n times each.
func cmdReplay() {
	k := kinds[*flagKind]
	if k == nil || k.replay == nil {
		fatal("cannot replay kind", *flagKind)
	}
	b, err := os.ReadFile(*flagIn)
	if err != nil {
		fatal(err)
	}
	w := newWriter(*flagOut)
	hangs := 0
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(bytes.TrimSpace(l)) == 0 {
			continue
		}
		var x struct {
			Id int `json:"id"`
		}
		if err := json.Unmarshal(l, &x); err != nil {
			fatal(err)
		}
		for i := 0; i < *flagN && hangs < 3; i++ {
			sawHang = false
			if c := k.replay(x.Id, l); c != nil {
				w.add(c)
			}
			if sawHang {
				hangs++
				break
			}
		}
	}
	w.close()
}

var (
	current *os.File
	skips   = map[string]bool{}
)

// note remembers what is about to be run, in case it takes the process down.
func note(text string) {
	if current != nil {
		current.Truncate(0)
		current.WriteAt([]byte(text), 0)
	}
}

func cmdRecord() {
	k := kinds[*flagKind]
	if k == nil {
		fatal("unknown kind", *flagKind)
	}
	if *flagCur != "" {
		var err error
		if current, err = os.Create(*flagCur); err != nil {
			fatal(err)
		}
	}
	if *flagSkip != "" {
		b, err := os.ReadFile(*flagSkip)
		if err != nil {
			fatal(err)
		}
		var l []string
		if err := json.Unmarshal(b, &l); err != nil {
			fatal(err)
		}
		for _, s := range l {
			skips[s] = true
		}
	}
	w := newWriter(*flagOut)
	v := loadVocab()
	seed := *flagSeed*1000 + int64(*flagShard)
	g := v.gen(seed)
	r := rand.New(rand.NewSource(seed))
	seen := map[feature]bool{}
	done := map[string]bool{}
	var pool, novelPool []string
	hangs := 0
	try := func(s string, keep func(novel bool) bool) bool {
		if skips[s] || done[s] || hangs >= 2 {
			return false
		}
		if k.maxLen > 0 && len(s) > k.maxLen || !k.bytes && !knownText(s) {
			return false
		}
		note(s)
		var c interface{}
		novel := false
		sawHang = false
		for _, f := range covered(func() { c = k.record(w.n, s, r, g) }) {
			if !seen[f] {
				seen[f] = true
				novel = true
			}
		}
		if sawHang {
			hangs++
		}
		if c == nil {
			return false
		}
		if novel {
			novelPool = append(novelPool, s)
		}
		if !keep(novel) {
			return false
		}
		done[s] = true
		w.add(c)
		if len(pool) < 2000 {
			pool = append(pool, s)
		} else {
			pool[r.Intn(len(pool))] = s
		}
		return true
	}
	always := func(bool) bool { return true }
	if k.fixed != nil {
		i := 0
		k.fixed(v, *flagTier == "thorough", func(s string) {
			if i%*flagShards == *flagShard {
				try(s, always)
			}
			i++
		})
	}
	fixed := w.n
	tries := 0
	for w.n-fixed < *flagN && tries < 12**flagN && hangs < 2 {
		tries++
		var s string
		switch x := r.Intn(10); {
		case x < 6 || len(pool) == 0:
			s = k.text(g)
		case x < 8 && len(novelPool) > 0:
			s = mutate(r, novelPool[r.Intn(len(novelPool))], pool)
		case x < 9 && len(v.seeds) > 0:
			s = v.seeds[r.Intn(len(v.seeds))]
			if len(s) > 200 {
				// some lines of it
				ls := strings.SplitAfter(s, "\n")
				a := r.Intn(len(ls))
				b := a + 1 + r.Intn(8)
				if b > len(ls) {
					b = len(ls)
				}
				s = strings.Join(ls[a:b], "")
			}
			s = mutate(r, s, pool)
		default:
			s = mutate(r, pool[r.Intn(len(pool))], pool)
		}
		try(s, func(novel bool) bool { return novel || r.Intn(3) == 0 })
	}
	w.close()
}

// sawHang is set when a call of the code under test didn't end.
var sawHang bool
