// C13: updates converge, and every search sees one consistent revision.
// Generated histories of publications, pushes, polls and held pulls over
// several repositories, while observers search all the time.
package c13

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func TestConverge(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, rapid.IntRange(1, 3).Draw(t, "max"))
		n := rapid.IntRange(1, 3).Draw(t, "repos")
		shared := n > 1 && rapid.IntRange(0, 2).Draw(t, "shared") == 0
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		poll := map[*hx.WRepo]bool{}
		push := map[*hx.WRepo]bool{}
		for i := 0; i < n; i++ {
			kind := rapid.IntRange(0, 3).Draw(t, "kind")
			po, pu := kind != 0 && kind != 3, kind != 1
			if kind == 0 {
				pu = true
			}
			ms := rapid.SampledFrom([]int{1, 3, 10, 30}).Draw(t, "ms")
			name := fmt.Sprintf("r%d", i)
			url := "fake://c13/" + name
			if shared && i < 2 {
				url = "fake://c13/one#" + name
			}
			r := w.Add(name, url, po, pu, ms, hx.SmallTree(t, "first"))
			poll[r], push[r] = po, pu
			say("%s(poll=%v push=%v ms=%d url=%s)", name, po, pu, ms, url)
		}
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		if errs := w.Start(t); len(errs) > 0 {
			fail("start: %v", errs)
		}
		obs := w.Observe(rapid.IntRange(1, 3).Draw(t, "observers"))
		w.ObserveFast(obs, rapid.IntRange(0, 4).Draw(t, "fast"))
		releases := map[*hx.WRepo]func(){}
		defer func() {
			for _, f := range releases {
				f()
			}
			obs.Stop()
			w.Stop(t)
		}()
		owed := map[*hx.WRepo]int{} // the revision an accepted request or a poll will bring
		stuck := func(r *hx.WRepo) bool {
			if releases[r] != nil {
				return true
			}
			// a held pull holds a slot, and the working copy that others may share
			return len(releases) > 0 && (shared || len(releases) >= w.Cfg.MaxConcurrentIndexers)
		}
		reach := func(r *hx.WRepo, no int) {
			hx.Eventually(t, fmt.Sprintf("%s serves revision %d (history: %s)", r.Name, no, strings.Join(hist, "; ")), func() bool {
				if err := obs.Err(); err != nil {
					fail("%v", err)
				}
				got, err := r.Check(0)
				if err != nil {
					fail("%v", err)
				}
				return got >= no
			})
		}
		updates := 0
		for k := rapid.IntRange(2, 9).Draw(t, "steps"); k > 0; k-- {
			r := rapid.SampledFrom(w.Repos).Draw(t, "repo")
			switch rapid.IntRange(0, 8).Draw(t, "op") {
			case 0, 1, 2: // publish, and ask for it
				v := r.Publish(hx.SmallTree(t, "tree"), false)
				updates++
				say("publish %s", v.Name)
				if poll[r] {
					owed[r] = v.No
				}
				if push[r] {
					if !r.S.Update() {
						fail("Update of %s is refused, push updates are enabled", r.Name)
					}
					owed[r] = v.No
					say("push")
				}
			case 3: // push without news, or a refused one
				if got := r.S.Update(); got != push[r] {
					fail("Update of %s returns %v, push updates enabled: %v", r.Name, got, push[r])
				}
				say("push %s", r.Name)
				if push[r] {
					owed[r] = r.Head().No
				}
			case 4: // an update takes long: searches go on
				if releases[r] != nil || stuck(r) {
					continue
				}
				arrived, release := r.R.Hold()
				r.S.Update()
				select {
				case <-arrived:
				case <-time.After(hx.Patience()):
					release()
					hx.Hung()
					fail("HX-HANG no pull of %s", r.Name)
				}
				releases[r] = release
				say("%s is being pulled", r.Name)
				for i := 0; i < 3; i++ {
					hx.Bounded(t, "a search during an update", func() {
						if _, err := r.Check(i); err != nil {
							fail("%v", err)
						}
					})
				}
			case 5:
				if f := releases[r]; f != nil {
					f()
					delete(releases, r)
					say("the pull of %s goes on", r.Name)
				}
			case 6: // wait
				if no, has := owed[r]; has && !stuck(r) {
					reach(r, no)
					say("%s has %d", r.Name, no)
				}
			case 8: // an update comes in the middle of a search
				if stuck(r) || !push[r] {
					continue
				}
				if no, has := owed[r]; has {
					reach(r, no)
				}
				l := w.LeaseInIndex(r)
				if l == nil {
					continue
				}
				res := make(chan error, 1)
				go func() { _, err := r.Check(0); res <- err }()
				if !l.Wait(2 * time.Second) {
					l.Release() // a poll replaced that index meanwhile
					<-res
					continue
				}
				begun, _ := r.R.Pulls()
				v := r.Publish(hx.SmallTree(t, "tree"), false)
				updates++
				r.S.Update()
				owed[r] = v.No
				for end := time.Now().Add(200 * time.Millisecond); time.Now().Before(end); {
					if b, e := r.R.Pulls(); b > begun && e == b && len(w.IdxDirs()) > n {
						break
					}
					time.Sleep(time.Millisecond)
				}
				time.Sleep(time.Duration(rapid.IntRange(0, 40).Draw(t, "middle")) * time.Millisecond)
				l.Release()
				select {
				case err := <-res:
					if err != nil {
						fail("a search during which %s was updated: %v", r.Name, err)
					}
				case <-time.After(hx.Patience()):
					hx.Hung()
					fail("HX-HANG a search of %s during an update", r.Name)
				}
				say("%s is searched while revision %d comes", r.Name, v.No)
				hx.Class("updates in the middle of a search", 1)
			case 7:
				time.Sleep(time.Duration(rapid.IntRange(0, 20).Draw(t, "sleep")) * time.Millisecond)
			}
		}
		for r, f := range releases {
			f()
			delete(releases, r)
		}
		for _, r := range w.Repos {
			if no, has := owed[r]; has {
				reach(r, no)
			}
		}
		searches, err := obs.Stop()
		if err != nil {
			fail("%v", err)
		}
		w.Stop(t)
		for _, r := range w.Repos {
			no, err := r.Check(0)
			if err != nil {
				fail("%v", err)
			}
			if want, has := owed[r]; has && no != want && no != r.Head().No {
				fail("%s ends at revision %d, want %d", r.Name, no, want)
			}
		}
		hx.Count(strings.Join(hist, "; "), updates > 0)
		hx.Class("answers checked", int64(searches))
		hx.Class("updates", int64(updates))
	})
}
