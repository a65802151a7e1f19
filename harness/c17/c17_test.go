// C17: at most the configured number of indexers run at once. Pulls count from
// inside the driver; index builds are caught opening a file whose lease the
// harness holds, so both are certain to be going on while they are counted.
package c17

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// work counts what is certainly going on at this moment.
type work struct {
	mu     sync.Mutex
	now    map[string]string
	most   int
	worst  string
	builds int
}

func (w *work) begin(repo, what string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.now[repo] = what
	if what == "indexed" {
		w.builds++
	}
	if len(w.now) > w.most {
		w.most = len(w.now)
		w.worst = fmt.Sprint(w.now)
	}
}

func (w *work) end(repo string) {
	w.mu.Lock()
	delete(w.now, repo)
	w.mu.Unlock()
}

func (w *work) peak() (int, string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.most, w.worst
}

func TestLimit(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		max := rapid.IntRange(1, 4).Draw(t, "max")
		w := hx.NewWorld(d, max)
		n := rapid.IntRange(1, 6).Draw(t, "repos")
		wk := &work{now: map[string]string{}}
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		check := func() {
			if most, what := wk.peak(); most > max {
				fail("%d repositories were worked on at once, the limit is %d: %s", most, max, what)
			}
		}
		var held sync.WaitGroup
		over := make(chan struct{})
		say("max=%d", max)
		lease := map[*hx.WRepo]bool{}
		poll := map[*hx.WRepo]bool{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("r%d", i)
			po := rapid.Bool().Draw(t, "poll")
			pu := !po || rapid.Bool().Draw(t, "push")
			r := w.Add(name, "fake://c17/"+name, po, pu, rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "ms"), hx.SmallTree(t, "first"))
			poll[r] = po
			pullMs := rapid.SampledFrom([]int{0, 0, 3, 15}).Draw(t, "pullMs")
			idxMs := rapid.SampledFrom([]int{-1, 0, 3, 15}).Draw(t, "idxMs")
			lease[r] = idxMs >= 0
			say("%s(poll=%v push=%v pull=%dms index=%dms)", name, po, pu, pullMs, idxMs)
			r.R.OnPull(func() { // inside the driver
				wk.begin(name, "pulled")
				time.Sleep(time.Duration(pullMs) * time.Millisecond)
				wk.end(name)
			})
			leased := map[string]bool{}
			r.R.SetWriter(func(dir string, tr hx.Tree) {
				hx.WriteTree(dir, tr)
				if idxMs < 0 || leased[tr["id"]] {
					return
				}
				leased[tr["id"]] = true
				l := hx.TakeLease(filepath.Join(dir, "id"))
				if l == nil {
					hx.Class("no leases here", 1)
					return
				}
				held.Add(1)
				go func() {
					defer held.Done()
					defer l.Release()
					for asked := false; !asked; asked = l.Wait(20 * time.Millisecond) {
						select {
						case <-over:
							return
						default:
						}
					}
					wk.begin(name, "indexed")
					time.Sleep(time.Duration(idxMs) * time.Millisecond)
					wk.end(name)
				}()
			})
		}
		// some fail at startup
		dead := map[*hx.WRepo]bool{}
		for _, r := range w.Repos {
			if rapid.IntRange(0, 5).Draw(t, "fails") == 0 {
				r.R.SetMode(rapid.SampledFrom([]hx.Mode{hx.FailPull, hx.FailPartial, hx.Unindexable}).Draw(t, "how"))
				dead[r] = true
				say("%s cannot start", r.Name)
			}
		}
		// some hang for a while: as long as a slot is left, the others go on
		releases := map[*hx.WRepo]func(){}
		stuck := rapid.IntRange(0, min(max, n)).Draw(t, "stuck")
		for _, r := range w.Repos[:stuck] {
			_, rel := r.R.Hold()
			releases[r] = rel
			say("%s hangs", r.Name)
		}
		defer func() {
			for _, rel := range releases {
				rel()
			}
		}()
		started := make(chan map[string]error, 1)
		go func() {
			var out map[string]error
			hx.Bounded(quiet{}, "MakeAll", func() { out = w.Start(quiet{}) })
			started <- out
		}()
		if stuck > 0 {
			hx.Eventually(t, "the hanging repositories are pulled", func() bool {
				for r := range releases {
					if b, _ := r.R.Pulls(); b == 0 {
						return false
					}
				}
				return true
			})
			if stuck < max {
				hx.Eventually(t, "the other repositories are pulled", func() bool {
					for _, r := range w.Repos[stuck:] {
						if _, e := r.R.Pulls(); e == 0 {
							return false
						}
					}
					return true
				})
			}
			time.Sleep(5 * time.Millisecond)
			for r, rel := range releases {
				rel()
				delete(releases, r)
			}
			say("they go on")
		}
		var errs map[string]error
		select {
		case errs = <-started:
		case <-time.After(2 * hx.Patience()):
			hx.Hung()
			fail("HX-HANG startup does not end")
		}
		for _, r := range w.Repos {
			if dead[r] != (errs[r.Name] != nil) {
				fail("startup of %s: error %v", r.Name, errs[r.Name])
			}
		}
		defer w.Stop(t)
		check()
		var alive []*hx.WRepo
		for _, r := range w.Repos {
			if !dead[r] {
				alive = append(alive, r)
			}
		}
		updates := 0
		for k := rapid.IntRange(0, 3).Draw(t, "rounds"); k > 0 && len(alive) > 0; k-- {
			// failing and hanging ones among the updated
			want := map[*hx.WRepo]int{}
			var failing []*hx.WRepo
			for i, r := range alive {
				if rapid.IntRange(0, 3).Draw(t, "quiet") == 0 {
					continue
				}
				if len(releases) < max && rapid.IntRange(0, 4).Draw(t, "hang") == 0 {
					_, rel := r.R.Hold()
					releases[r] = rel
					say("%s hangs", r.Name)
				} else if rapid.IntRange(0, 4).Draw(t, "fail") == 0 {
					r.R.SetMode(rapid.SampledFrom([]hx.Mode{hx.FailPull, hx.FailPartial, hx.Unindexable}).Draw(t, "how"))
					failing = append(failing, r)
					say("%s fails", r.Name)
				}
				v := r.Publish(hx.SmallTree(t, fmt.Sprintf("tree%d", i)), false)
				say("publish %s", v.Name)
				want[r] = v.No
				updates++
				if !poll[r] {
					r.S.Update()
				}
			}
			time.Sleep(time.Duration(rapid.IntRange(0, 30).Draw(t, "ms")) * time.Millisecond)
			free := len(releases) < max
			reach := func() {
				for r, no := range want {
					if releases[r] != nil {
						continue
					}
					bad := false
					for _, f := range failing {
						bad = bad || f == r
					}
					if bad {
						continue
					}
					hx.Eventually(t, fmt.Sprintf("%s serves revision %d (history: %s)", r.Name, no, strings.Join(hist, "; ")), func() bool {
						got, err := r.Check(0)
						if err != nil {
							fail("%v", err)
						}
						return got >= no
					})
				}
			}
			if free {
				reach()
			}
			for r, rel := range releases {
				rel()
				delete(releases, r)
			}
			for _, r := range failing {
				r.R.SetMode(hx.OK)
				if !poll[r] {
					r.S.Update()
				}
			}
			failing = nil
			reach()
			say("all have it")
			check()
		}
		w.Stop(t)
		close(over)
		held.Wait()
		check()
		most, _ := wk.peak()
		classes := []string{}
		if most == max {
			classes = append(classes, "limit reached")
		}
		hx.Class("builds caught", int64(wk.builds))
		hx.Class("updates", int64(updates))
		hx.Count(strings.Join(hist, "; "), most == max && n > max || stuck > 0, classes...)
	})
}

// quiet turns failures into panics, for use in other goroutines.
type quiet struct{}

func (quiet) Fatalf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }
func (quiet) Logf(f string, a ...interface{})   {}
