package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"runtime/coverage"
)

// Coverage guidance: when the harness is built with -cover -covermode=atomic,
// inputs which make the code under test do something new are preferred.
// Guidance only chooses among inputs; it has no part in any verdict.

var coverOK bool

func initCover() {
	defer func() { recover() }()
	err := coverage.ClearCounters()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	coverOK = err == nil
	// The harness itself has counters too (without them there is no mode to
	// speak of): learn which package is its own.
	own := map[uint32]bool{}
	for _, f := range covered(func() {}) {
		own[f.pkg] = true
	}
	ownPkgs = own
}

// ownPkgs are the packages whose counters don't count.
var ownPkgs map[uint32]bool

type feature struct{ pkg, fn, ctr, bucket uint32 }

func bucket(n uint64) uint32 {
	b := uint32(0)
	for n > 0 {
		b++
		n >>= 1
	}
	if b > 6 {
		b = 6
	}
	return b
}

// covered runs f and returns the features of its execution.
func covered(f func()) []feature {
	if !coverOK {
		f()
		return nil
	}
	coverage.ClearCounters()
	f()
	var buf bytes.Buffer
	if err := coverage.WriteCounters(&buf); err != nil {
		fmt.Fprintln(os.Stderr, "coverage:", err)
		coverOK = false
		return nil
	}
	return decodeCounters(buf.Bytes())
}

func decodeCounters(b []byte) (fs []feature) {
	defer func() {
		if e := recover(); e != nil {
			fs = nil
		}
	}()
	flavor := b[4+4+16]
	b = b[32:]
	entries := binary.LittleEndian.Uint64(b)
	strLen := binary.LittleEndian.Uint32(b[8:])
	argLen := binary.LittleEndian.Uint32(b[12:])
	off := 16 + int(strLen) + int(argLen)
	off = (off + 3) &^ 3
	b = b[off:]
	next := func() uint64 {
		if flavor == 1 {
			v := binary.LittleEndian.Uint32(b)
			b = b[4:]
			return uint64(v)
		}
		var v uint64
		var sh uint
		for {
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << sh
			if c&0x80 == 0 {
				return v
			}
			sh += 7
		}
	}
	for ; entries > 0; entries-- {
		n := next()
		pkg := uint32(next())
		fn := uint32(next())
		for i := uint64(0); i < n; i++ {
			if v := next(); v > 0 && !ownPkgs[pkg] {
				fs = append(fs, feature{pkg, fn, uint32(i), bucket(v)})
			}
		}
	}
	return fs
}
