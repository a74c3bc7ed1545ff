package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
)

type writer struct {
	f *os.File
	b *bufio.Writer
	n int
}

func newWriter(path string) *writer {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	return &writer{f: f, b: bufio.NewWriterSize(f, 1<<20)}
}

func (w *writer) add(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal(err)
	}
	w.b.Write(b)
	w.b.WriteByte('\n')
	w.n++
}

func (w *writer) close() {
	w.b.Flush()
	if err := w.f.Close(); err != nil {
		fatal(err)
	}
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(3)
}

var (
	flagOut    = flag.String("o", "", "output file")
	flagIn     = flag.String("i", "", "input file")
	flagSeed   = flag.Int64("seed", 1, "seed")
	flagN      = flag.Int("n", 1000, "number of cases")
	flagTier   = flag.String("tier", "quick", "quick or thorough")
	flagKind   = flag.String("kind", "", "kind of cases")
	flagShard  = flag.Int("shard", 0, "index of the shard")
	flagShards = flag.Int("shards", 1, "number of shards")
	flagCur    = flag.String("current", "", "file that names the current input")
	flagSkip   = flag.String("skip", "", "file with a JSON list of texts to leave out")
)

var commands = map[string]func(){}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness COMMAND [flags]")
	}
	f, ok := commands[os.Args[1]]
	if !ok {
		fatal("unknown command", os.Args[1])
	}
	initCover()
	flag.CommandLine.Parse(os.Args[2:])
	f()
}
