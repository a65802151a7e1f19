// C14: a failed update keeps serving the last good content and recovers.
// Generated histories of failing and succeeding updates and restarts, run as
// an unprivileged user so that files can be made unreadable or unremovable.
package c14

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var bad = []hx.Mode{hx.FailPull, hx.FailPartial, hx.Unindexable, hx.Unreadable}
var names = map[hx.Mode]string{hx.OK: "ok", hx.FailPull: "pull fails", hx.FailPartial: "pull fails half way", hx.Unindexable: "working copy vanishes", hx.Unreadable: "a file is unreadable"}

func TestRecover(t *testing.T) {
	if os.Getuid() == 0 {
		hx.Env("must not run as root")
	}
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		n := rapid.IntRange(1, 3).Draw(t, "repos")
		w := hx.NewWorld(d, n)
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		mode := map[*hx.WRepo]hx.Mode{}
		// modeGen mostly fails
		setMode := func(r *hx.WRepo, m hx.Mode) {
			if m == hx.OK {
				r.SetBad(false)
				r.R.SetMode(m)
			} else {
				r.R.SetMode(m)
			}
			mode[r] = m
			say("%s: %s", r.Name, names[m])
		}
		publish := func(r *hx.WRepo) {
			v := r.Publish(hx.SmallTree(t, "tree"), mode[r] != hx.OK)
			say("publish %s", v.Name)
		}
		for i := 0; i < n; i++ {
			po := rapid.Bool().Draw(t, "poll")
			r := w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c14/%d", i), po, true, rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "ms"), hx.SmallTree(t, "first"))
			say("%s(poll=%v)", r.Name, po)
			if rapid.IntRange(0, 3).Draw(t, "broken at start") == 0 {
				m := rapid.SampledFrom(bad).Draw(t, "mode")
				r.SetBad(true)
				setMode(r, m)
			}
		}
		fails, recoveries, left := 0, 0, 0
		var obs *hx.Observers
		start := func() {
			errs := w.Start(t)
			for _, r := range w.Repos {
				err := errs[r.Name]
				if mode[r] == hx.OK && err != nil {
					fail("%s cannot start: %v", r.Name, err)
				}
				if mode[r] != hx.OK && err == nil {
					fail("%s starts although %s", r.Name, names[mode[r]])
				}
				if err != nil {
					fails++
				}
			}
			left = 0
			say("started, failing: %d", len(errs))
			obs = w.Observe(2)
		}
		start()
		defer func() {
			obs.Stop()
			w.Stop(t)
		}()
		// settle brings every repository to the beginning of a pull, when no
		// update is going on, and compares the index directories.
		settle := func() {
			var rel []func()
			started := 0
			for _, r := range w.Repos {
				if r.S == nil {
					continue
				}
				started++
				arrived, release := r.R.Hold()
				rel = append(rel, release)
				r.S.Update()
				select {
				case <-arrived:
				case <-time.After(hx.Patience()):
					for _, f := range rel {
						f()
					}
					hx.Hung()
					fail("HX-HANG %s is not pulled any more after an accepted request", r.Name)
				}
			}
			dirs := w.IdxDirs()
			for _, f := range rel {
				f()
			}
			if len(dirs) != started+left {
				fail("%d index directories for %d working repositories (%d could not be removed): %v", len(dirs), started, left, dirs)
			}
		}
		reach := func(r *hx.WRepo) {
			no := r.Head().No
			hx.Eventually(t, fmt.Sprintf("%s serves revision %d (history: %s)", r.Name, no, strings.Join(hist, "; ")), func() bool {
				if err := obs.Err(); err != nil {
					fail("%v", err)
				}
				got, err := r.Check(0)
				if err != nil {
					fail("%v", err)
				}
				return got >= no
			})
		}
		for k := rapid.IntRange(2, 8).Draw(t, "steps"); k > 0; k-- {
			r := rapid.SampledFrom(w.Repos).Draw(t, "repo")
			switch rapid.IntRange(0, 8).Draw(t, "op") {
			case 0, 1, 2: // the next updates fail
				setMode(r, rapid.SampledFrom(bad).Draw(t, "mode"))
				publish(r)
				if r.S == nil {
					continue
				}
				for j := rapid.IntRange(1, 4).Draw(t, "tries"); j > 0; j-- {
					settle()
					say("failed update of %s", r.Name)
					fails++
					if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
						publish(r)
					}
				}
				settle()
			case 3, 4: // recovery, of the same or with another revision
				if mode[r] != hx.OK {
					setMode(r, hx.OK)
				}
				if rapid.Bool().Draw(t, "new") {
					publish(r)
				}
				if r.S == nil {
					continue
				}
				r.S.Update()
				reach(r)
				say("%s recovered", r.Name)
				recoveries++
				settle()
			case 5: // a plain update
				if mode[r] == hx.OK && r.S != nil {
					publish(r)
					r.S.Update()
					reach(r)
				}
			case 6: // the old index cannot be removed
				if mode[r] != hx.OK || r.S == nil {
					continue
				}
				settle()
				var locked []string
				for _, x := range w.IdxDirs() {
					// not only this repository's: a new index has no such files yet
					filepath.WalkDir(filepath.Join(w.Db, x), func(p string, e fs.DirEntry, err error) error {
						if err == nil && e.IsDir() {
							locked = append(locked, p)
						}
						return nil
					})
				}
				pollers := false
				for _, x := range w.Repos {
					pollers = pollers || x != r && x.Conf.PollUpdatesEnabled()
				}
				if pollers {
					continue
				}
				for i := len(locked) - 1; i >= 0; i-- {
					hx.Must(os.Chmod(locked[i], 0o555))
				}
				publish(r)
				r.S.Update()
				say("the old index of %s cannot be removed", r.Name)
				reach(r)
				left++
				fails++
				settle()
				for _, p := range locked {
					hx.Must(os.Chmod(p, 0o755))
				}
			case 7, 8: // restart
				_, err := obs.Stop()
				if err != nil {
					fail("%v", err)
				}
				w.Stop(t)
				say("restart")
				start()
			}
		}
		// everything works again
		_, err := obs.Stop()
		if err != nil {
			fail("%v", err)
		}
		restart := false
		for _, r := range w.Repos {
			setMode(r, hx.OK)
			restart = restart || r.S == nil
		}
		if restart {
			w.Stop(t)
			say("last restart")
			start()
		} else {
			obs = w.Observe(1)
		}
		for _, r := range w.Repos {
			publish(r)
			r.S.Update()
			reach(r)
		}
		settle()
		if _, err := obs.Stop(); err != nil {
			fail("%v", err)
		}
		w.Stop(t)
		for _, r := range w.Repos {
			for kind := 0; kind < 3; kind++ {
				no, err := r.Check(kind)
				if err != nil {
					fail("%v", err)
				}
				if no != r.Head().No {
					fail("%s ends at revision %d, want %d", r.Name, no, r.Head().No)
				}
			}
		}
		hx.Count(strings.Join(hist, "; "), fails > 0)
		hx.Class("failed updates or starts", int64(fails))
		hx.Class("recoveries", int64(recoveries))
	})
}
