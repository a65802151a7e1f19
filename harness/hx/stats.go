// Package hx holds what the checks share: case statistics, scratch space,
// generators, reference models and a driver that the harness controls.
package hx

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type stats struct {
	mu      sync.Mutex
	evals   int64
	hashes  map[uint64]bool
	classes map[string]int64
	samples map[uint64]string // keyed by hash: the smallest hashes are kept, so the choice is deterministic
	known   map[string]int64
}

var st = stats{
	hashes:  map[uint64]bool{},
	classes: map[string]int64{},
	samples: map[uint64]string{},
	known:   map[string]int64{},
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// Count records one evaluated case. key identifies the case (distinctness),
// nontrivial is the property's own rule, classes feed the distribution.
func Count(key string, nontrivial bool, classes ...string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.evals++
	for _, c := range classes {
		st.classes[c]++
	}
	if nontrivial {
		st.classes["nontrivial"]++
		h := hash64(key)
		st.hashes[h] = true
		addSample(h, key)
	}
}

// Class adds to the distribution without counting a case.
func Class(c string, n int64) {
	st.mu.Lock()
	st.classes[c] += n
	st.mu.Unlock()
}

// Known records that a listed finding was reproduced.
func Known(id string) {
	st.mu.Lock()
	st.known[id]++
	st.mu.Unlock()
}

const maxSamples = 4

func addSample(h uint64, key string) {
	if len(key) > 1500 {
		key = key[:1500] + "...(cut)"
	}
	if len(st.samples) < maxSamples {
		st.samples[h] = key
		return
	}
	var worst uint64
	for k := range st.samples {
		if k > worst {
			worst = k
		}
	}
	if h < worst {
		delete(st.samples, worst)
		st.samples[h] = key
	}
}

func dump() {
	path := os.Getenv("HX_STATS")
	if path == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	hs := make([]string, 0, len(st.hashes))
	for h := range st.hashes {
		hs = append(hs, strconv.FormatUint(h, 36))
	}
	sort.Strings(hs)
	var sm []string
	for _, s := range st.samples {
		sm = append(sm, s)
	}
	sort.Strings(sm)
	b, _ := json.Marshal(map[string]interface{}{
		"evals": st.evals, "hashes": hs, "classes": st.classes, "samples": sm, "known": st.known,
	})
	os.WriteFile(path, b, 0o644)
}

// Main is the TestMain of every check.
func Main(m *testing.M) {
	stubMain()
	// hound logs through package log: keep that in a file, so that the message
	// of a log.Fatal can be shown without flooding the shard's output.
	if p := os.Getenv("HX_LOG"); p != "" {
		if f, err := os.Create(p); err == nil {
			log.SetOutput(f)
		}
	}
	code := m.Run()
	dump()
	CleanScratch()
	os.Exit(code)
}

// ---- scratch space ----

var (
	scratchOnce sync.Once
	scratchDir  string
	scratchN    int
	scratchMu   sync.Mutex
)

func scratchRoot() string {
	scratchOnce.Do(func() {
		base := os.Getenv("HX_TMP")
		if base == "" {
			base = os.TempDir()
		}
		d, err := os.MkdirTemp(base, "hx")
		if err != nil {
			Env("cannot create scratch: %v", err)
		}
		os.Chmod(d, 0o755)
		scratchDir = d
	})
	return scratchDir
}

// Scratch makes an empty directory and returns it with its remover.
func Scratch() (string, func()) {
	root := scratchRoot()
	scratchMu.Lock()
	scratchN++
	n := scratchN
	scratchMu.Unlock()
	d := filepath.Join(root, fmt.Sprintf("c%d", n))
	if err := os.Mkdir(d, 0o755); err != nil {
		Env("cannot create scratch: %v", err)
	}
	return d, func() {
		filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(d)
	}
}

func CleanScratch() {
	if scratchDir != "" {
		os.RemoveAll(scratchDir)
	}
}

// Env ends the process because of the environment, not the tested code.
func Env(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "HX-ENVIRONMENT: "+format+"\n", args...)
	dump()
	CleanScratch()
	os.Exit(97)
}

// Must is for harness operations whose failure says nothing about hound.
func Must(err error) {
	if err != nil {
		if abandoned(err) {
			runtime.Goexit() // a worker that outlived its (failed) case
		}
		_, file, line, _ := runtime.Caller(1)
		Env("%s:%d: %v", filepath.Base(file), line, err)
	}
}

// abandoned tells whether the error is about a scratch directory that was
// removed already.
func abandoned(err error) bool {
	var pe *fs.PathError
	var le *os.LinkError
	p := ""
	switch {
	case errors.As(err, &pe):
		p = pe.Path
	case errors.As(err, &le):
		p = le.Old
	}
	rel, ok := strings.CutPrefix(p, scratchRoot()+"/")
	if !ok {
		return false
	}
	c, _, _ := strings.Cut(rel, "/")
	_, err = os.Lstat(filepath.Join(scratchRoot(), c))
	return os.IsNotExist(err)
}

// TB is the part of *rapid.T and *testing.T the helpers use.
type TB interface {
	Fatalf(format string, args ...interface{})
	Logf(format string, args ...interface{})
}

// Watchdog is how long an operation on tiny inputs may take before it counts
// as hanging. Generous: these operations take microseconds to milliseconds.
const Watchdog = 45 * time.Second

// Patience is how long to wait for something that has to happen.
func Patience() time.Duration { return patience() }

// patience is shorter once something hung, when the case is made smaller.
var hung atomic.Bool

func patience() time.Duration {
	if hung.Load() {
		return Watchdog / 5
	}
	return Watchdog
}

// Hung notes that something hung.
func Hung() { hung.Store(true) }

// Bounded runs fn and fails if it neither returns nor panics in time. A panic
// in fn is re-raised in the caller, where the property library handles it.
func Bounded(t TB, what string, fn func()) {
	type out struct{ p interface{} }
	ch := make(chan out, 1)
	go func() {
		var o out
		ok := false
		defer func() {
			if !ok {
				if p := recover(); p != nil {
					buf := make([]byte, 16<<10)
					buf = buf[:runtime.Stack(buf, false)]
					o.p = fmt.Sprintf("%v\n%s", p, buf)
				} else {
					o.p = "goroutine exited"
				}
			}
			ch <- o
		}()
		fn()
		ok = true
	}()
	wait := patience()
	tm := time.NewTimer(wait)
	defer tm.Stop()
	select {
	case o := <-ch:
		if o.p != nil {
			t.Fatalf("%s: panic: %v", what, o.p)
		}
	case <-tm.C:
		buf := make([]byte, 64<<10)
		buf = buf[:runtime.Stack(buf, true)]
		Hung()
		t.Fatalf("HX-HANG %s did not return within %v\n%s", what, wait, buf)
	}
}

// Eventually waits until cond holds, failing after the watchdog time.
func Eventually(t TB, what string, cond func() bool) {
	wait := patience()
	deadline := time.Now().Add(wait)
	d := 200 * time.Microsecond
	for !cond() {
		if time.Now().After(deadline) {
			buf := make([]byte, 64<<10)
			buf = buf[:runtime.Stack(buf, true)]
			Hung()
			t.Fatalf("HX-HANG %s did not happen within %v\n%s", what, wait, buf)
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d *= 2
		}
	}
}
