// Command gotextverif drives the real code of gotext and records what it does as histories for the
// trace specifications in /verif/spec.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func sortedKeys[V any](m map[string]V) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// latin1 maps every string in a value to one with one character per byte.
func latin1(v any) any {
	switch x := v.(type) {
	case string:
		var b strings.Builder
		for i := 0; i < len(x); i++ {
			b.WriteRune(rune(x[i]))
		}
		return b.String()
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = latin1(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = latin1(e)
		}
		return l
	case []string:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = latin1(e)
		}
		return l
	case [][]int:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = e
		}
		return l
	case [][]string:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = latin1(e)
		}
		return l
	case []map[string]any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = latin1(e)
		}
		return l
	}
	return v
}

type sink struct {
	f *os.File
	b *bufio.Writer
	n int
}

func newSink(path string) *sink {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	return &sink{f: f, b: bufio.NewWriterSize(f, 1<<20)}
}

func (s *sink) put(t trace) {
	ops := make([]any, len(t.Ops))
	for i, o := range t.Ops {
		ops[i] = latin1(o)
	}
	j, err := json.Marshal(map[string]any{"id": t.ID, "ops": ops})
	if err != nil {
		panic(err)
	}
	s.b.Write(j)
	s.b.WriteByte('\n')
	s.n++
}

func (s *sink) close() {
	s.b.Flush()
	s.f.Close()
}

var drivers = map[string]func(r R, count int, s *sink){}

// usage: gotextverif <driver> <seed> <count> <trace file>
func main() {
	if len(os.Args) < 5 {
		fmt.Fprintln(os.Stderr, "usage: gotextverif driver seed count file")
		os.Exit(2)
	}
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	count, _ := strconv.Atoi(os.Args[3])
	d, ok := drivers[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no driver", os.Args[1])
		os.Exit(2)
	}
	s := newSink(os.Args[4])
	currentPath = os.Args[4] + ".current"
	go watchdog(os.Args[4] + ".current")
	d(newR(seed), count, s)
	s.close()
}

// The call being made, for the watchdog.
var (
	curMu    sync.Mutex
	curOp    any
	curStart time.Time
)

func begin(op any) {
	if concurrent.Load() {
		return
	}
	curMu.Lock()
	curOp, curStart = op, time.Now()
	curMu.Unlock()
}

func end() {
	if concurrent.Load() {
		return
	}
	curMu.Lock()
	curOp = nil
	curMu.Unlock()
}

// watchdog ends the process when a call of the code under test doesn't return.
func watchdog(path string) {
	for {
		time.Sleep(500 * time.Millisecond)
		curMu.Lock()
		op, since := curOp, time.Since(curStart)
		if op != nil && since > hangLimit {
			j, _ := json.Marshal(latin1(op))
			os.WriteFile(path, j, 0o644)
			fmt.Fprintln(os.Stderr, "HANG", string(j))
			os.Exit(3)
		}
		curMu.Unlock()
	}
}

const hangLimit = 40 * time.Second
