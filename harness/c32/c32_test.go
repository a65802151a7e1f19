// C32: nothing accumulates. Generated histories of updates, failures, searches
// and requests; whenever nothing is going on, the process holds no more
// descriptors, mappings, goroutines, children and files than before.
package c32

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// usage is what the process holds, by kind.
type usage map[string][]string

// measure looks at the process; below is the case's directory.
func measure(below string) usage {
	u := usage{}
	fds, err := os.ReadDir("/proc/self/fd")
	hx.Must(err)
	for _, f := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil {
			u["descriptor"] = append(u["descriptor"], to)
		}
	}
	b, err := os.ReadFile("/proc/self/maps")
	hx.Must(err)
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, below); i >= 0 {
			u["mapping"] = append(u["mapping"], l[i:])
		}
	}
	ts, err := filepath.Glob("/proc/self/task/*/children")
	hx.Must(err)
	for _, p := range ts {
		b, err := os.ReadFile(p)
		if err != nil {
			continue // the thread is gone
		}
		for _, c := range strings.Fields(string(b)) {
			s, _ := os.ReadFile("/proc/" + c + "/stat")
			u["child"] = append(u["child"], string(s))
		}
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		u["goroutine"] = append(u["goroutine"], g)
	}
	fs, err := os.ReadDir(os.TempDir())
	hx.Must(err)
	for _, f := range fs {
		u["temporary file"] = append(u["temporary file"], f.Name())
	}
	return u
}

// more says what u has more of than base.
func more(u, base usage) error {
	for _, k := range []string{"temporary file", "mapping", "child", "descriptor", "goroutine"} {
		if len(u[k]) <= len(base[k]) {
			continue
		}
		have := map[string]int{}
		name := func(s string) string {
			if k == "goroutine" {
				// without its number and what it waits for
				_, s, _ = strings.Cut(s, "\n")
				var fn []string
				for _, l := range strings.Split(s, "\n") {
					if !strings.HasPrefix(l, "\t") {
						l, _, _ = strings.Cut(l, "(0x")
						fn = append(fn, l)
					}
				}
				return strings.Join(fn, " < ")
			}
			return s
		}
		for _, s := range base[k] {
			have[name(s)]++
		}
		var extra []string
		for _, s := range u[k] {
			if n := name(s); have[n] > 0 {
				have[n]--
			} else {
				extra = append(extra, n)
			}
		}
		sort.Strings(extra)
		if len(extra) > 6 {
			extra = append(extra[:6], "...")
		}
		return fmt.Errorf("%d %ss, %d before: %s", len(u[k]), k, len(base[k]), strings.Join(extra, "; "))
	}
	return nil
}

// settle waits until there is no more than before.
func settle(below string, base usage) error {
	end := time.Now().Add(hx.Patience() / 4)
	for pause := time.Millisecond; ; pause *= 2 {
		err := more(measure(below), base)
		if err == nil {
			return nil
		}
		if time.Now().After(end) {
			hx.Hung()
			return err
		}
		// files that are only closed by their finalizers do not stay
		runtime.GC()
		time.Sleep(min(pause, time.Second))
	}
}

// deaf is a client that goes away after some bytes.
type deaf struct {
	h http.Header
	n int
}

func (d *deaf) Header() http.Header { return d.h }
func (d *deaf) WriteHeader(int)     {}
func (d *deaf) Write(p []byte) (int, error) {
	if d.n -= len(p); d.n < 0 {
		return 0, errors.New("connection reset by peer")
	}
	return len(p), nil
}

var bad = []hx.Mode{hx.FailPull, hx.FailPartial, hx.Unindexable, hx.Unreadable}
var names = map[hx.Mode]string{hx.OK: "ok", hx.FailPull: "pull fails", hx.FailPartial: "pull fails half way", hx.Unindexable: "working copy vanishes", hx.Unreadable: "a file is unreadable"}
var patterns = []string{"foo", "", "(", "^$never", "[a", ".", "a|foo", "\x00", "(?i)FOO", "x{9999}"}
var filters = []string{"", "", "", "id", "(", "^$", "[", `\.txt$`}

func tmpdir(d string) func() {
	tmp := filepath.Join(d, "tmp")
	hx.Must(os.Mkdir(tmp, 0o755))
	old := os.Getenv("TMPDIR")
	hx.Must(os.Setenv("TMPDIR", tmp))
	return func() { os.Setenv("TMPDIR", old) }
}

func TestSteady(t *testing.T) {
	if os.Getuid() == 0 {
		hx.Env("must not run as root")
	}
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		defer tmpdir(d)()
		n := rapid.IntRange(1, 3).Draw(t, "repos")
		w := hx.NewWorld(d, n)
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		for i := 0; i < n; i++ {
			po := rapid.Bool().Draw(t, "poll")
			r := w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c32/%d", i), po, true, rapid.SampledFrom([]int{1, 5, 20}).Draw(t, "ms"), hx.SmallTree(t, "first"))
			say("%s(poll=%v)", r.Name, po)
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "broken at start") == 0 {
				r.SetBad(true)
				m := rapid.SampledFrom(bad).Draw(t, "mode")
				r.R.SetMode(m)
				say("%s: %s", r.Name, names[m])
			}
		}
		// a garbage collection must not come before a look at the process
		// that would show what it takes away: it may, either way nothing stays
		defer debug.SetGCPercent(debug.SetGCPercent(400))
		w.Start(t)
		var live []*hx.WRepo
		idx := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			if r.S != nil {
				live = append(live, r)
				idx[r.Name] = r.S
			}
		}
		if len(live) == 0 {
			fail("nothing starts")
		}
		mux := http.NewServeMux()
		api.Setup(mux, idx, 100)
		defer w.Stop(t)

		var base usage
		fails, checks := 0, 0
		// still brings every repository to the beginning of a pull, when no
		// update is going on, and looks at the process.
		still := func() {
			var rel []func()
			free := func() {
				for _, f := range rel {
					f()
				}
			}
			for _, r := range live {
				arrived, release := r.R.Hold()
				rel = append(rel, release)
				r.S.Update()
				select {
				case <-arrived:
				case <-time.After(hx.Patience()):
					free()
					hx.Hung()
					fail("HX-HANG %s is not pulled any more after an accepted request", r.Name)
				}
			}
			defer free()
			first := base == nil
			if first {
				base = measure(d)
				// once started, one index each and no temporary file
				base["temporary file"] = nil
				base["mapping"] = make([]string, len(live))
			}
			if err := settle(d, base); err != nil {
				fail("%v", err)
			}
			checks++
			if first {
				// the least of what it can be
				base = measure(d)
			}
			var work, rest []string
			fs, err := os.ReadDir(w.Db)
			hx.Must(err)
			for _, f := range fs {
				switch {
				case strings.HasPrefix(f.Name(), "idx-"):
					work = append(work, f.Name())
				case !strings.HasPrefix(f.Name(), "vcs-"):
					rest = append(rest, f.Name())
				}
			}
			if len(work) != len(live) || len(rest) > 0 {
				fail("the database directory has the indexes %v for %d repositories, and %v", work, len(live), rest)
			}
		}
		reach := func(r *hx.WRepo) {
			no := r.Head().No
			hx.Eventually(t, fmt.Sprintf("%s serves revision %d (history: %s)", r.Name, no, strings.Join(hist, "; ")), func() bool {
				got, err := r.Check(0)
				if err != nil {
					fail("%v", err)
				}
				return got >= no
			})
		}
		update := func(r *hx.WRepo, m hx.Mode) {
			say("update of %s: %s", r.Name, names[m])
			if m == hx.OK {
				r.Publish(hx.SmallTree(t, "tree"), false)
				r.S.Update()
				reach(r)
				return
			}
			fails++
			// the next pull is already in order again
			arrived, release := r.R.Hold()
			r.S.Update()
			select {
			case <-arrived:
			case <-time.After(hx.Patience()):
				release()
				hx.Hung()
				fail("HX-HANG %s is not pulled any more after an accepted request", r.Name)
			}
			r.Publish(hx.SmallTree(t, "tree"), true)
			r.R.SetMode(m)
			arrived2, release2 := r.R.Hold()
			release()
			r.S.Update()
			select {
			case <-arrived2:
			case <-time.After(hx.Patience()):
				release2()
				hx.Hung()
				fail("HX-HANG %s is not pulled any more after an accepted request", r.Name)
			}
			r.R.SetMode(hx.OK)
			r.Publish(hx.SmallTree(t, "tree"), false)
			release2()
			r.S.Update()
			reach(r)
		}
		search := func(r *hx.WRepo) func() {
			o := &index.SearchOptions{
				IgnoreCase:     rapid.Bool().Draw(t, "icase"),
				LiteralSearch:  rapid.IntRange(0, 4).Draw(t, "literal") == 0,
				LinesOfContext: uint(rapid.IntRange(0, 3).Draw(t, "context")),
				FileRegexp:     rapid.SampledFrom(filters).Draw(t, "files"),
				Offset:         rapid.IntRange(0, 2).Draw(t, "offset"),
				Limit:          rapid.IntRange(0, 2).Draw(t, "limit"),
				MaxResults:     rapid.IntRange(0, 2).Draw(t, "max"),
			}
			o.ExcludeFileRegexp = rapid.SampledFrom(filters).Draw(t, "exclude")
			p := rapid.SampledFrom(patterns).Draw(t, "pattern")
			return func() { r.S.Search(p, o); r.S.GetExcludedFiles() }
		}
		request := func() func() {
			v := url.Values{}
			v.Set("q", rapid.SampledFrom(patterns).Draw(t, "pattern"))
			v.Set("repos", rapid.SampledFrom([]string{"*", "r0", "r0,r1,r2", "nope", ""}).Draw(t, "names"))
			v.Set("files", rapid.SampledFrom(filters).Draw(t, "files"))
			v.Set("repo", "r0")
			p := rapid.SampledFrom([]string{"search", "search", "search", "search", "repos", "excludes", "update", "github-webhook"}).Draw(t, "endpoint")
			method, body := "GET", ""
			if p == "update" || p == "github-webhook" {
				method = "POST"
				body = rapid.SampledFrom([]string{"", "{", `{"repository":{"full_name":"r0"}}`, `{"repository":{"full_name":"x"}}`}).Draw(t, "body")
			}
			gone := rapid.IntRange(0, 4).Draw(t, "gone") == 0
			after := rapid.IntRange(0, 200).Draw(t, "after")
			return func() {
				// a panic while writing to a client that is gone ends this request only
				defer func() { recover() }()
				req := httptest.NewRequest(method, "/api/v1/"+p+"?"+v.Encode(), strings.NewReader(body))
				if gone {
					mux.ServeHTTP(&deaf{http.Header{}, after}, req)
				} else {
					mux.ServeHTTP(httptest.NewRecorder(), req)
				}
			}
		}
		// once everything, so that what is only made once is there
		update(live[0], hx.OK)
		search(live[0])()
		request()()
		still()
		for k := rapid.IntRange(3, 9).Draw(t, "steps"); k > 0; k-- {
			r := rapid.SampledFrom(live).Draw(t, "repo")
			switch rapid.IntRange(0, 9).Draw(t, "op") {
			case 0, 1:
				for j := rapid.IntRange(1, 3).Draw(t, "times"); j > 0; j-- {
					update(r, hx.OK)
				}
			case 2, 3, 4:
				update(r, rapid.SampledFrom(bad).Draw(t, "mode"))
			case 5, 6:
				say("searches of %s", r.Name)
				for j := rapid.IntRange(2, 12).Draw(t, "times"); j > 0; j-- {
					search(r)()
				}
			case 7, 8:
				say("requests")
				for j := rapid.IntRange(2, 12).Draw(t, "times"); j > 0; j-- {
					request()()
				}
			case 9:
				say("searches and requests during an update of %s", r.Name)
				var fs []func()
				for j := rapid.IntRange(2, 8).Draw(t, "times"); j > 0; j-- {
					if j%2 == 0 {
						fs = append(fs, search(r))
					} else {
						fs = append(fs, request())
					}
				}
				stop := make(chan struct{})
				var wg sync.WaitGroup
				for _, f := range fs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for {
							select {
							case <-stop:
								return
							default:
								f()
							}
						}
					}()
				}
				update(r, hx.OK)
				close(stop)
				hx.Bounded(t, "searches", wg.Wait)
			}
			if rapid.Bool().Draw(t, "look") {
				still()
			}
		}
		still()
		hx.Count(strings.Join(hist, "; "), fails > 0 || len(hist) > n+4)
		hx.Class("failed updates", int64(fails))
		hx.Class("looks at the process", int64(checks))
	})
}

// TestTools runs the drivers that start other programs.
func TestTools(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer tmpdir(d)()
		st := filepath.Join(d, "stubs")
		hx.Must(os.Mkdir(st, 0o755))
		set, _, remove := hx.Stubs(st)
		defer remove()
		drv := rapid.SampledFrom([]string{"git", "git", "hg", "svn", "bzr"}).Draw(t, "driver")
		hist := []string{drv}
		var wd *vcs.WorkDir
		var err error
		remote := "stub://x"
		var g *hx.GitRemote
		conf := `{}`
		if drv == "git" {
			g = hx.NewGitRemote(filepath.Join(d, "remote"), "master")
			remote = g.Url()
			conf = rapid.SampledFrom([]string{`{}`, `{"detect-ref":true}`, `{"ref":"other"}`}).Draw(t, "conf")
		}
		wd, err = vcs.New(drv, []byte(conf))
		hx.Must(err)
		state := hx.StubState{Remotes: map[string]*hx.StubRemote{}, Fail: map[string]string{}, Pad: [2]string{"", "\n"}}
		no := 0
		commit := func() {
			no++
			tr := hx.Tree{"id": fmt.Sprintf("revision %d\n", no), ".gitattributes": "id linguist-generated=true\n"}
			if g != nil {
				g.Commit("master", tr, no > 1)
				g.Commit("other", tr, no > 1)
				return
			}
			state.Remotes[remote] = &hx.StubRemote{Rev: fmt.Sprint(no), Tree: tr}
			set(state)
		}
		commit()
		dir := filepath.Join(d, "wd")
		pull := func() {
			hx.Bounded(t, "pull", func() {
				wd.PullOrClone(dir, remote)
				wd.AutoGeneratedFiles(dir)
			})
		}
		pull()
		pull()
		runtime.GC()
		base := measure(d)
		if err := more(usage{"child": base["child"], "temporary file": base["temporary file"]}, usage{}); err != nil {
			if err := settle(d, usage{"descriptor": base["descriptor"], "goroutine": base["goroutine"]}); err != nil {
				t.Fatalf("after the first clone: %v\n%v", err, hist)
			}
		}
		base["child"], base["temporary file"] = nil, nil
		bads := 0
		for k := rapid.IntRange(3, 8).Draw(t, "steps"); k > 0; k-- {
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0, 1:
				commit()
				hist = append(hist, "commit")
			case 2:
				how := rapid.SampledFrom([]string{"gone", "spoiled"}).Draw(t, "how")
				hist = append(hist, "working copy "+how)
				if how == "gone" {
					hx.Must(os.RemoveAll(dir))
				} else {
					os.RemoveAll(filepath.Join(dir, "."+drv))
				}
				bads++
			case 3, 4:
				bads++
				if g != nil {
					hist = append(hist, "remote away")
					hx.Must(os.Rename(g.Dir, g.Dir+".away"))
					pull()
					hx.Must(os.Rename(g.Dir+".away", g.Dir))
					break
				}
				op := rapid.SampledFrom([]string{"clone", "pull", "rev"}).Draw(t, "which")
				how := rapid.SampledFrom([]string{"", "silent", "big", "signal", "mute ", "mute silent", "late ", "late big"}).Draw(t, "how")
				hist = append(hist, op+" fails "+how)
				state.Fail = map[string]string{op: how}
				set(state)
				pull()
				if rapid.Bool().Draw(t, "gone") {
					hx.Must(os.RemoveAll(dir))
					pull()
				}
				state.Fail = map[string]string{}
				set(state)
			}
			pull()
			if rapid.IntRange(0, 3).Draw(t, "missing") == 0 {
				// no such program
				path := os.Getenv("PATH")
				hx.Must(os.Setenv("PATH", "/nowhere"))
				pull()
				hx.Must(os.Setenv("PATH", path))
				hist = append(hist, "no program")
				bads++
			}
		}
		if err := settle(d, base); err != nil {
			t.Fatalf("%v\nhistory: %s", err, strings.Join(hist, "; "))
		}
		hx.Count(strings.Join(hist, "; ")+conf, bads > 0)
		hx.Class("failures", int64(bads))
	})
}
