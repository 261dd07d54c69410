// Conformance drivers: run the real library and record what it does as NDJSON
// events, to be checked by TLC against the TLA+ specifications in ../spec.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"log"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"
)

// M is an event (a JSON object).
type M map[string]interface{}

// Trace writes events to a file, one JSON object per line.
type Trace struct {
	mu  sync.Mutex
	f   *os.File
	w   *bufio.Writer
	n   int
	beg int
}

func NewTrace(fn string) *Trace {
	f, err := os.Create(fn)
	if err != nil {
		die(err)
	}
	return &Trace{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (t *Trace) Emit(ev string, m M) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.emit(ev, m)
}

func (t *Trace) emit(ev string, m M) {
	if m == nil {
		m = M{}
	}
	m["ev"] = ev
	b, err := json.Marshal(m)
	if err != nil {
		die(err)
	}
	t.w.Write(b)
	t.w.WriteByte('\n')
	t.n++
	if ev == "Begin" {
		t.beg++
	}
}

func (t *Trace) Close() {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.w.Flush()
	t.f.Close()
}

func die(err error) {
	fmt.Fprintln(os.Stderr, "driver:", err)
	os.Exit(3)
}

// fatalWriter makes log.Fatal of the code under test panic instead of ending
// the process; other log output is dropped.
type fatalWriter struct{}

func (fatalWriter) Write(p []byte) (int, error) {
	var pcs [32]uintptr
	n := runtime.Callers(2, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "log.Fatal") || strings.HasPrefix(f.Function, "log.(*Logger).Fatal") {
			panic("log.Fatal: " + strings.TrimSpace(string(p)))
		}
		if !more {
			break
		}
	}
	return len(p), nil
}

func init() { log.SetOutput(fatalWriter{}) }

const opTimeout = 30 * time.Second

// guard runs fn and returns "" or the text of the panic it ended with. If fn
// does not return in time, a Hang event is written and the driver stops.
func (t *Trace) guard(what string, fn func()) (msg string) {
	timer := time.AfterFunc(opTimeout, func() {
		t.mu.Lock()
		t.emit("Hang", M{"op": what})
		t.w.Flush()
		t.f.Close()
		os.Exit(0)
	})
	defer timer.Stop()
	defer func() {
		if r := recover(); r != nil {
			msg = clip(fmt.Sprint(r))
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	fn()
	return ""
}

func clip(s string) string {
	s = strings.Map(func(r rune) rune {
		if r < 32 || r > 126 {
			return ' '
		}
		return r
	}, s)
	if len(s) > 120 {
		s = s[:120]
	}
	return s
}

// try runs fn under guard; if it panics, a Panic event is written (which no
// specification accepts) and false is returned.
func (t *Trace) try(what string, fn func()) bool {
	if msg := t.guard(what, fn); msg != "" {
		t.Emit("Panic", M{"op": what, "msg": msg})
		return false
	}
	return true
}

type rng struct{ *rand.Rand }

func newRng(seed int64, salt string) *rng {
	h := uint64(1469598103934665603)
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 1099511628211
	}
	return &rng{rand.New(rand.NewSource(seed*1000003 + int64(h>>1)))}
}

func (r *rng) in(lo, hi int) int { // inclusive
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}
func (r *rng) p(pct int) bool { return r.Intn(100) < pct }

// cmdFunc runs a driver: it writes shard number shard of nsh to tr.
type cmdFunc func(tr *Trace, r *rng, a *Args)

type Args struct {
	Seed   int64
	N      int
	Shard  int
	Shards int
	Tier   string
	Sched  string
	Dir    string
	Opt    string
}

var cmds = map[string]cmdFunc{}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
