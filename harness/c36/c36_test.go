// C36: repositories are pulled when that is due, and indexed when they changed.
// Generated histories of publications, update requests, failures and restarts;
// every pull and every index directory that is made is recorded.
package c36

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
	"unsafe"

	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// watch counts the index directories that are made in dir.
type watch struct {
	fd int
	n  int
}

func newWatch(dir string) *watch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	hx.Must(err)
	_, err = syscall.InotifyAddWatch(fd, dir, syscall.IN_CREATE|syscall.IN_MOVED_TO)
	hx.Must(err)
	return &watch{fd: fd}
}

func (w *watch) close() { syscall.Close(w.fd) }

// count is the number of index directories made so far.
func (w *watch) count() int {
	buf := make([]byte, 1<<16)
	for {
		n, err := syscall.Read(w.fd, buf)
		if n <= 0 || err != nil {
			return w.n
		}
		for at := 0; at < n; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[at]))
			name := string(bytes.TrimRight(buf[at+syscall.SizeofInotifyEvent:at+syscall.SizeofInotifyEvent+int(e.Len)], "\x00"))
			if strings.HasPrefix(name, "idx-") && e.Mask&syscall.IN_ISDIR != 0 {
				w.n++
			}
			at += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
}

// times are the beginnings of the pulls of a repository.
type times struct {
	mu sync.Mutex
	at []time.Time
}

func (x *times) add() {
	x.mu.Lock()
	x.at = append(x.at, time.Now())
	x.mu.Unlock()
}

func (x *times) get() []time.Time {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]time.Time{}, x.at...)
}

func TestDue(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, rapid.IntRange(1, 3).Draw(t, "max"))
		n := rapid.IntRange(1, 3).Draw(t, "repos")
		pulls := make([]*times, n)
		granted := make([]int, n) // accepted requests
		changes := make([]int, n) // revisions that had to be indexed
		var hist []string
		for i := 0; i < n; i++ {
			poll, push := rapid.IntRange(0, 3).Draw(t, "poll") > 0, rapid.Bool().Draw(t, "push")
			ms := rapid.SampledFrom([]int{20, 40, 70, 150, 60000}).Draw(t, "ms")
			r := w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c36/%d", i), poll, push, ms, hx.TreeGen(2, 3).Draw(t, "tree"))
			pulls[i] = &times{}
			r.R.OnPull(pulls[i].add)
			changes[i] = 1
			hist = append(hist, fmt.Sprintf("%s(poll=%v every %d ms, push=%v)", r.Name, poll, ms, push))
		}
		made := newWatch(w.Db)
		defer made.close()
		running := false
		start := func() {
			// each start pulls once
			from := make([]int, n)
			for i := range w.Repos {
				from[i] = len(pulls[i].get())
			}
			if errs := w.Start(t); len(errs) > 0 {
				t.Fatalf("start: %v", errs)
			}
			running = true
			for i, r := range w.Repos {
				if k := len(pulls[i].get()) - from[i]; k < 1 {
					t.Fatalf("%s is not pulled at the start; %v", r.Name, hist)
				}
			}
		}
		begun := make([]int, n) // index of the pull of the last start
		check := func() {
			for i, r := range w.Repos {
				at := pulls[i].get()[begun[i]:]
				early := 0
				for k := 1; k < len(at); k++ {
					if !*r.Conf.EnablePollUpdates || at[k].Sub(at[k-1]) < time.Duration(r.Conf.MsBetweenPolls)*time.Millisecond-time.Millisecond {
						early++
					}
				}
				if early > granted[i] {
					t.Fatalf("%s is pulled %d times before it is due, with %d update requests: %v\n%v", r.Name, early, granted[i], at, hist)
				}
				if c := r.R.Clones(); c > 1 {
					t.Fatalf("%s is cloned %d times; %v", r.Name, c, hist)
				}
			}
			most := 0
			for _, c := range changes {
				most += c
			}
			if k := made.count(); k > most {
				t.Fatalf("%d indexes are built for %d revisions; %v", k, most, hist)
			}
		}
		start()
		bursts, quiet := 0, 0
		for k := rapid.IntRange(2, 7).Draw(t, "steps"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(t, "repo")
			r := w.Repos[i]
			switch rapid.IntRange(0, 6).Draw(t, "op") {
			case 0, 1:
				hist = append(hist, "publish "+r.Name)
				changes[i]++
				r.Publish(hx.TreeGen(2, 3).Draw(t, "tree"), false)
			case 2:
				for m := rapid.IntRange(1, 4).Draw(t, "requests"); m > 0; m-- {
					if r.S.Update() {
						granted[i]++
					}
				}
				hist = append(hist, "requests for "+r.Name)
			case 3:
				// a burst while a pull is going on
				if !*r.Conf.EnablePushUpdates {
					continue
				}
				arrived, release := r.R.Hold()
				r.S.Update()
				select {
				case <-arrived:
				case <-time.After(hx.Patience()):
					release()
					t.Fatalf("%s is not pulled after a request; %v", r.Name, hist)
				}
				m := rapid.IntRange(2, 50).Draw(t, "burst")
				for j := 0; j < m; j++ {
					r.S.Update()
				}
				release()
				// all of them make one more pull
				granted[i] += 2
				bursts++
				hist = append(hist, fmt.Sprintf("%d requests for %s during a pull", m, r.Name))
			case 4:
				mode := rapid.SampledFrom([]hx.Mode{hx.FailPull, hx.FailPartial, hx.OK}).Draw(t, "mode")
				r.R.SetMode(mode)
				hist = append(hist, fmt.Sprintf("mode %d for %s", mode, r.Name))
			case 5:
				hist = append(hist, "restart")
				for _, r := range w.Repos {
					r.R.SetMode(hx.OK)
				}
				w.Stop(t)
				running = false
				check()
				for j := range w.Repos {
					begun[j] = len(pulls[j].get())
					granted[j] = 0
				}
				start()
			}
			ms := rapid.SampledFrom([]int{0, 30, 100, 200}).Draw(t, "sleep")
			if ms > 0 {
				quiet++
			}
			hist = append(hist, fmt.Sprintf("%d ms", ms))
			time.Sleep(time.Duration(ms) * time.Millisecond)
			check()
		}
		if running {
			w.Stop(t)
		}
		check()
		all := 0
		for _, p := range pulls {
			all += len(p.get())
		}
		hx.Count(strings.Join(hist, "; "), all > 2*n)
		hx.Class("pulls", int64(all))
		hx.Class("bursts", int64(bursts))
		hx.Class("indexes built", int64(made.count()))
	})
}
