// C16: searching, updating and shutting down are race-free and terminate.
// Several actors call everything at once, directly and over HTTP handlers,
// while repositories are stopped at generated moments: idle, in the middle of
// a pull, in the middle of an index build, with another update pending.
package c16

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func TestLife(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		n := rapid.IntRange(1, 3).Draw(t, "repos")
		w := hx.NewWorld(d, rapid.IntRange(1, 3).Draw(t, "max"))
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		push := map[*hx.WRepo]bool{}
		var leaseMu sync.Mutex
		wantLease := map[*hx.WRepo]string{} // the content of "id" to catch
		leases := map[*hx.WRepo]*hx.Lease{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("r%d", i)
			po, pu := rapid.Bool().Draw(t, "poll"), rapid.IntRange(0, 3).Draw(t, "push") > 0
			ms := rapid.SampledFrom([]int{1, 4, 20, 60000}).Draw(t, "ms")
			r := w.Add(name, "fake://c16/"+name, po, pu, ms, hx.SmallTree(t, "first"))
			push[r] = pu
			r.R.SetWriter(func(dir string, tr hx.Tree) {
				hx.WriteTree(dir, tr)
				leaseMu.Lock()
				defer leaseMu.Unlock()
				if wantLease[r] != "" && wantLease[r] == tr["id"] {
					wantLease[r] = ""
					leases[r] = hx.TakeLease(filepath.Join(dir, "id"))
				}
			})
			say("%s(poll=%v push=%v ms=%d)", name, po, pu, ms)
		}
		if rapid.Bool().Draw(t, "new") {
			for _, r := range w.Repos {
				hx.Bounded(t, "searcher.New", func() {
					s, err := searcher.New(w.Db, r.Name, r.Conf)
					if err != nil {
						fail("New: %v", err)
					}
					r.S = s
				})
			}
		} else if errs := w.Start(t); len(errs) > 0 {
			fail("start: %v", errs)
		}
		ss := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			ss[r.Name] = r.S
		}
		mux := http.NewServeMux()
		api.Setup(mux, ss, 100)

		// the actors
		stop := make(chan struct{})
		var wg sync.WaitGroup
		var mu sync.Mutex
		var bad error
		calls := 0
		nact := rapid.IntRange(1, 4).Draw(t, "actors")
		script := rapid.SliceOfN(rapid.IntRange(0, 8), 3, 12).Draw(t, "script")
		for a := 0; a < nact; a++ {
			wg.Add(1)
			go func(a int) {
				defer wg.Done()
				for k := a; ; k++ {
					select {
					case <-stop:
						return
					default:
					}
					r := w.Repos[k%n]
					var err error
					get := func(method, path, body string) int {
						rec := httptest.NewRecorder()
						mux.ServeHTTP(rec, httptest.NewRequest(method, path, strings.NewReader(body)))
						return rec.Code
					}
					switch op := script[k%len(script)]; op {
					case 0, 1, 2:
						_, err = r.Check(op)
					case 3:
						if r.S.Update() != push[r] {
							err = fmt.Errorf("Update of %s does not return %v", r.Name, push[r])
						}
					case 4:
						if c := get("GET", "/api/v1/search?repos=*&q=foo&stats=1", ""); c != 200 {
							err = fmt.Errorf("search over HTTP: status %d", c)
						}
					case 5:
						if c := get("GET", "/api/v1/excludes?repo="+r.Name, ""); c != 200 {
							err = fmt.Errorf("excludes over HTTP: status %d", c)
						}
					case 6:
						if c := get("POST", "/api/v1/update?repos="+r.Name, ""); (c == 200) != push[r] {
							err = fmt.Errorf("update over HTTP: status %d, push enabled: %v", c, push[r])
						}
					case 7:
						if c := get("GET", "/api/v1/repos", ""); c != 200 {
							err = fmt.Errorf("repos over HTTP: status %d", c)
						}
					case 8:
						time.Sleep(time.Millisecond)
					}
					mu.Lock()
					calls++
					if err != nil && bad == nil {
						bad = err
					}
					quit := bad != nil
					mu.Unlock()
					if quit {
						return
					}
				}
			}(a)
		}
		fast := hx.NewObservers()
		w.ObserveFast(fast, rapid.IntRange(0, 4).Draw(t, "fast"))
		releases := map[*hx.WRepo]func(){}
		ended := false
		end := func() {
			if ended {
				return
			}
			ended = true
			close(stop)
			hx.Bounded(t, "the end of all short searches", func() { fast.Stop() })
			hx.Bounded(t, "the end of all calls", wg.Wait)
		}
		defer func() {
			for _, f := range releases {
				f()
			}
			for _, l := range leases {
				if l != nil {
					l.Release()
				}
			}
			end()
			w.Stop(t)
		}()
		complaint := func() {
			mu.Lock()
			err := bad
			mu.Unlock()
			if err == nil {
				err = fast.Err()
			}
			if err != nil {
				fail("%v", err)
			}
		}

		during := 0
		order := rapid.Permutation(w.Repos).Draw(t, "order")
		for _, r := range order {
			for k := rapid.IntRange(0, 3).Draw(t, "publications"); k > 0; k-- {
				v := r.Publish(hx.SmallTree(t, "tree"), false)
				say("publish %s", v.Name)
				if rapid.Bool().Draw(t, "ask") {
					r.S.Update()
				}
				time.Sleep(time.Duration(rapid.IntRange(0, 15).Draw(t, "pause")) * time.Millisecond)
			}
			// bring its worker where it is to be stopped
			where := rapid.SampledFrom([]string{"anywhere", "anywhere", "pull", "pull", "build", "build"}).Draw(t, "where")
			if where != "anywhere" && !push[r] {
				where = "anywhere"
			}
			inside := func() bool { return false } // certainly in the middle of its operation
			switch where {
			case "pull":
				arrived, release := r.R.Hold()
				releases[r] = release
				r.Publish(hx.SmallTree(t, "tree"), false)
				r.S.Update()
				select {
				case <-arrived:
				case <-time.After(hx.Patience()):
					hx.Hung()
					fail("HX-HANG an accepted update of %s is not pulled", r.Name)
				}
				inside = func() bool { return true }
			case "build":
				leaseMu.Lock()
				wantLease[r] = fmt.Sprintf("%s-%d foo\n", r.Name, r.Head().No+1)
				leaseMu.Unlock()
				r.Publish(hx.SmallTree(t, "tree"), false)
				r.S.Update()
				var l *hx.Lease
				hx.Eventually(t, fmt.Sprintf("the index build of %s", r.Name), func() bool {
					leaseMu.Lock()
					defer leaseMu.Unlock()
					taken := wantLease[r] == ""
					l = leases[r]
					return taken && (l == nil || l.Asked())
				})
				if l == nil {
					hx.Class("no leases here", 1)
					where = "anywhere"
					break
				}
				releases[r] = l.Release
				inside = func() bool { return true }
			}
			pending := push[r] && rapid.Bool().Draw(t, "pending")
			if pending {
				r.S.Update()
			}
			begun0, _ := r.R.Pulls()
			// waiters and stop requests, all at once
			nw, ns := rapid.IntRange(1, 3).Draw(t, "waiters"), rapid.IntRange(1, 3).Draw(t, "stops")
			waited := make(chan struct{}, nw)
			for i := 0; i < nw; i++ {
				go func() { r.S.Wait(); waited <- struct{}{} }()
			}
			var sg sync.WaitGroup
			for i := 0; i < ns; i++ {
				sg.Add(1)
				go func() { defer sg.Done(); r.S.Stop() }()
			}
			hx.Bounded(t, "Stop", sg.Wait)
			begun1, _ := r.R.Pulls()
			say("%s is stopped (%s, pending update %v, %d waiters)", r.Name, where, pending, nw)
			if inside() {
				during++
				select {
				case <-waited:
					fail("Wait of %s returns in the middle of its %s", r.Name, where)
				case <-time.After(time.Duration(rapid.IntRange(1, 12).Draw(t, "middle")) * time.Millisecond):
				}
				releases[r]()
				delete(releases, r)
			}
			for i := 0; i < nw; i++ {
				select {
				case <-waited:
				case <-time.After(hx.Patience()):
					hx.Hung()
					fail("HX-HANG a waiter of %s is not released after a stop request", r.Name)
				}
			}
			begun2, ended2 := r.R.Pulls()
			if begun2 != ended2 {
				fail("Wait of %s returned while it is pulled", r.Name)
			}
			if inside() && begun2 != begun0 {
				fail("%s began another pull after it was stopped in the middle of its %s", r.Name, where)
			}
			if begun2 > begun1+1 {
				fail("%s was pulled %d times after it was stopped", r.Name, begun2-begun1)
			}
			before, err := r.Check(0)
			if err != nil {
				fail("after the stop: %v", err)
			}
			r.Publish(hx.SmallTree(t, "tree"), false)
			hx.Bounded(t, "Update after Stop", func() { r.S.Update(); r.S.Update() })
			time.Sleep(time.Duration(rapid.IntRange(1, 25).Draw(t, "after")) * time.Millisecond)
			if b, _ := r.R.Pulls(); b != begun2 {
				fail("%s is pulled after it stopped", r.Name)
			}
			for k := 0; k < 3; k++ {
				no, err := r.Check(k)
				if err != nil {
					fail("after the stop: %v", err)
				}
				if no != before {
					fail("%s serves revision %d after it stopped at %d", r.Name, no, before)
				}
			}
			complaint()
		}
		end()
		complaint()
		for _, r := range w.Repos {
			if _, err := r.S.Search("(", &index.SearchOptions{}); err == nil {
				fail("an invalid pattern is no error")
			}
		}
		if got := len(w.IdxDirs()); got != n {
			fail("%d index directories for %d repositories after the stop", got, n)
		}
		hx.Count(strings.Join(hist, "; ")+fmt.Sprint(script), during > 0)
		hx.Class("calls", int64(calls))
		hx.Class("stopped inside an operation", int64(during))
	})
}
