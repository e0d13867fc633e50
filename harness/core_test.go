// Package boocheck is the property-based test harness for github.com/rmera/boo.
// It only uses the exported API of the library.
package boocheck

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- run set-up

var (
	baseSeed uint64 = 1
	scale           = 1.0 // multiplies the case counts (tier)
	casePath string       // where the current case is noted, for crashes
)

type statsT struct {
	mu      sync.Mutex
	Evals   int64
	hashes  map[uint64]struct{}
	Samples []string
	Classes map[string]int64
}

var stats = &statsT{hashes: map[uint64]struct{}{}, Classes: map[string]int64{}}

// The library prints its progress when asked to (Verbose); that goes nowhere.
var (
	realStdout = os.Stdout
	devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
)

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard) // the library logs through the default logger
	if s := os.Getenv("BOOCHECK_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 64)
		if err == nil {
			baseSeed = v
		}
	}
	if s := os.Getenv("BOOCHECK_SCALE"); s != "" {
		v, err := strconv.ParseFloat(s, 64)
		if err == nil {
			scale = v
		}
	}
	casePath = os.Getenv("BOOCHECK_CASE")
	go watchdog()
	rc := m.Run()
	if p := os.Getenv("BOOCHECK_STATS"); p != "" {
		if w := flag.Lookup("test.fuzzworker"); w != nil && w.Value.String() == "true" {
			p += "." + strconv.Itoa(os.Getpid())
		}
		hs := make([]string, 0, len(stats.hashes))
		for h := range stats.hashes {
			if len(hs) == 300000 {
				break
			}
			hs = append(hs, strconv.FormatUint(h, 16))
		}
		b, _ := json.Marshal(map[string]any{"evals": stats.Evals, "hashes": hs, "samples": stats.Samples, "classes": stats.Classes})
		_ = os.WriteFile(p, b, 0o644)
	}
	os.Exit(rc)
}

// caseCount changes whenever a new case starts.
var caseCount atomic.Int64

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func residentPages() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n
}

// The cases take milliseconds. One that has used minutes of processor time,
// gigabytes of memory, or where everything the library runs has been blocked
// for good, will not end: the call in progress is reported. Time on a clock
// is never the reason, so a slow machine makes no difference.
const (
	cpuLimit  = 150 * time.Second
	pageLimit = 4 << 30 / 4096
)

func watchdog() {
	var (
		last    int64 = -1
		start   time.Duration
		ticks   int
		blocked int
	)
	give := func(what string) {
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		where := "HARNESS-ERROR"
		if strings.Contains(string(buf), "github.com/rmera/boo") {
			where = "BROKEN:"
		}
		fmt.Fprintf(realStdout, "\n%s %s\n%s\n", where, what, buf)
		os.Exit(1)
	}
	for {
		time.Sleep(500 * time.Millisecond)
		c := caseCount.Load()
		if c != last {
			last, start, ticks, blocked = c, cpuTime(), 0, 0
			continue
		}
		ticks++
		if cpuTime()-start > cpuLimit {
			give(fmt.Sprintf("a single case has used %v of processor time without ending", cpuLimit))
		}
		if residentPages() > pageLimit {
			give("a single case made the process grow over 4 GB")
		}
		if ticks < 10 {
			continue
		}
		gs := booGoroutines()
		all := len(gs) > 0
		for _, g := range gs {
			all = all && blockedState(g.state)
		}
		if !all {
			blocked = 0
			continue
		}
		if blocked++; blocked > 60 {
			give("everything the library runs is blocked")
		}
	}
}

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	_, _ = h.Write([]byte(s))
	return h.Sum64()
}

// check runs prop on about n generated cases (times the tier's scale). The
// random choices are a function of BOOCHECK_SEED and the test's name only.
func check(t *testing.T, n int, prop func(t *rapid.T)) {
	if capturing { // a fuzz target wants the property, see fuzz_test.go
		if captured == nil {
			captured = prop
		}
		return
	}
	t.Helper()
	n = int(float64(n)*scale + 0.5)
	if n < 1 {
		n = 1
	}
	if devNull != nil {
		os.Stdout = devNull
		defer func() { os.Stdout = realStdout }()
	}
	seed := mix(baseSeed*1000003+hashString(t.Name())) | 1
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}
	if err := flag.Set("rapid.seed", strconv.FormatUint(seed, 10)); err != nil {
		t.Fatal(err)
	}
	rapid.Check(t, func(rt *rapid.T) {
		stats.mu.Lock()
		stats.Evals++
		stats.mu.Unlock()
		caseCount.Add(1)
		prop(rt)
	})
}

// nontrivial counts a distinct non-trivial case, identified by its printed form.
func nontrivial(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	h := hashString(s)
	stats.mu.Lock()
	defer stats.mu.Unlock()
	if _, ok := stats.hashes[h]; ok {
		return
	}
	stats.hashes[h] = struct{}{}
	n := len(stats.hashes)
	if n == 1 || n == 10 || n == 100 || n == 1000 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		stats.Samples = append(stats.Samples, s)
	}
}

func class(label string) {
	stats.mu.Lock()
	stats.Classes[label]++
	stats.mu.Unlock()
}

func classIf(cond bool, label string) {
	if cond {
		class(label)
	}
}

// noteCase records the case about to run, so that a crash of the whole process
// (a panic in a goroutine of the library) can be reported with its input.
func noteCase(format string, args ...any) {
	if casePath != "" {
		_ = os.WriteFile(casePath, []byte(fmt.Sprintf(format, args...)), 0o644)
	}
}

// seldom is true once in 2^k cases (rapid's ranges favour small numbers).
func seldom(t *rapid.T, k int, name string) bool {
	for i := 0; i < k; i++ {
		if !rapid.Bool().Draw(t, name) {
			return false
		}
	}
	return true
}

// seedLibrary makes the library's random draws a function of a generated value.
func seedLibrary(t *rapid.T) uint64 {
	s := rapid.Uint64().Draw(t, "libseed")
	rand.VerifSeed(s)
	return s
}

// ------------------------------------------------- goroutines of the library

type goro struct {
	state string
	stack string
}

// booGoroutines returns the goroutines, other than the calling one, that have
// a frame of the library on their stack or were created by the library.
func booGoroutines() []goro {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []goro
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // the caller
			continue
		}
		if !strings.Contains(g, "github.com/rmera/boo") {
			continue
		}
		head, rest, _ := strings.Cut(g, "\n")
		st := ""
		if a := strings.Index(head, "["); a >= 0 {
			st = strings.Trim(head[a:], "[]:")
			st, _, _ = strings.Cut(st, ",")
			st, _, _ = strings.Cut(st, " (")
		}
		out = append(out, goro{st, rest})
	}
	return out
}

func blockedState(s string) bool {
	switch {
	case strings.HasPrefix(s, "chan send"), strings.HasPrefix(s, "chan receive"), strings.HasPrefix(s, "select"),
		strings.HasPrefix(s, "semacquire"), strings.HasPrefix(s, "sync."):
		return true
	}
	return false
}

// runToEnd runs f, which starts library code, in its own goroutine and waits
// for it. If, in one consistent snapshot, every goroutine of the library is
// blocked on a channel or lock, nothing can ever wake them up (the harness
// does not touch those channels), and it reports a deadlock. No clock is
// involved in that decision, and a slow run is just waited for.
func runToEnd(f func()) (deadlock string) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	wait := time.Millisecond
	same := 0
	for {
		select {
		case p := <-done:
			if p != nil {
				panic(p)
			}
			return ""
		case <-time.After(wait):
		}
		if wait < 50*time.Millisecond {
			wait *= 2
		}
		gs := booGoroutines()
		all := len(gs) > 0
		for _, g := range gs {
			if !blockedState(g.state) {
				all = false
			}
		}
		if all {
			same++
		} else {
			same = 0
		}
		if same >= 20 {
			select { // it may have just finished
			case p := <-done:
				if p != nil {
					panic(p)
				}
				return ""
			default:
			}
			var b strings.Builder
			for _, g := range gs {
				fmt.Fprintf(&b, "[%s] %s\n", g.state, g.stack)
			}
			return b.String()
		}
	}
}

// leaked waits until no goroutine of the library is left, or all the ones left
// are blocked for good; it returns a description of the latter.
func leaked() string {
	same := 0
	wait := 100 * time.Microsecond
	for {
		gs := booGoroutines()
		if len(gs) == 0 {
			return ""
		}
		all := true
		for _, g := range gs {
			if !blockedState(g.state) {
				all = false
			}
		}
		if all {
			same++
		} else {
			same = 0
		}
		if same >= 20 {
			var b strings.Builder
			for _, g := range gs {
				fmt.Fprintf(&b, "[%s] %s\n", g.state, g.stack)
			}
			return b.String()
		}
		time.Sleep(wait)
		if wait < 20*time.Millisecond {
			wait *= 2
		}
	}
}

// mustPanic reports whether f panics.
func mustPanic(f func()) (panicked bool) {
	defer func() {
		if recover() != nil {
			panicked = true
		}
	}()
	f()
	return false
}
