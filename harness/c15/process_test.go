package c15

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

type start struct {
	Db    string
	Max   int
	Repos map[string]local
	// repositories of whom the content changes while the server runs: what to write
	Later map[string]map[string]string
}

type local struct {
	Dir  string
	Dots bool
}

type served struct {
	Rev   string
	Files map[string]string
}

// child is a server for a while.
func child() {
	var j start
	hx.Must(json.NewDecoder(os.Stdin).Decode(&j))
	cfg := &config.Config{DbPath: j.Db, MaxConcurrentIndexers: j.Max, Repos: map[string]*config.Repo{}}
	yes, no := true, false
	msg := config.SecretMessage(`{"watch-changes":true}`)
	for n, r := range j.Repos {
		cfg.Repos[n] = &config.Repo{Url: "file://" + r.Dir, Vcs: "local", VcsConfigMessage: &msg, EnablePollUpdates: &no, EnablePushUpdates: &yes, ExcludeDotFiles: r.Dots}
	}
	ss, errs, err := searcher.MakeAll(cfg)
	must(err)
	for n, err := range errs {
		must(fmt.Errorf("%s: %v", n, err))
	}
	look := func() map[string]served {
		out := map[string]served{}
		for n, s := range ss {
			res, err := s.Search("", &index.SearchOptions{})
			must(err)
			v := served{res.Revision, map[string]string{}}
			for _, f := range res.Matches {
				for _, l := range f.Matches {
					v.Files[f.Filename] += l.Line + "\n"
				}
			}
			out[n] = v
		}
		return out
	}
	first := look()
	for n, files := range j.Later {
		for p, d := range files {
			hx.Must(os.WriteFile(filepath.Join(j.Repos[n].Dir, p), []byte(d), 0o644))
		}
	}
	for n := range j.Later {
		was := first[n].Rev
		for m, r := range j.Repos {
			if r.Dir == j.Repos[n].Dir {
				s := ss[m]
				s.Update()
				hx.Eventually(hx.Stop{}, "update of "+m, func() bool {
					res, err := s.Search("zzz", &index.SearchOptions{})
					return err == nil && res.Revision != was
				})
			}
		}
	}
	second := look()
	for _, s := range ss {
		s.Stop()
		s.Wait()
	}
	b, _ := json.Marshal(map[string]map[string]served{"first": first, "second": second})
	fmt.Println("SERVED", string(b))
}

// must ends the process where the tested code fails.
func must(err error) {
	if err != nil {
		hx.Stop{}.Fatalf("%v", err)
	}
}

// TestProcesses: every start is another process, as in real life; nothing that
// a process remembers or counts from its beginning can help or harm.
func TestProcesses(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		var dirs []string
		for _, n := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"repo", "Repo", "repo.git", "x/repo", "y/repo", "repo ", "répo"}), 1, 4, rapid.ID[string]).Draw(t, "dirs") {
			dir := filepath.Join(d, "src", n)
			hx.Must(os.MkdirAll(dir, 0o755))
			hx.WriteTree(dir, hx.Tree{"id": n + "\n", "a": "first\n", ".dot": "dot\n"})
			dirs = append(dirs, dir)
		}
		serial := 0
		var hist []string
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		repos := map[string]local{}
		type kept struct {
			conf  string
			files map[string]map[string]string // of its directory: the index directories with this url
		}
		conf := func(dir string) string {
			var dots, nodots int
			for _, r := range repos {
				if r.Dir == dir && r.Dots {
					dots++
				} else if r.Dir == dir {
					nodots++
				}
			}
			return fmt.Sprint(dots, nodots)
		}
		expect := func(r local) map[string]string {
			out := map[string]string{}
			for p, s := range hx.SnapshotDir(r.Dir) {
				if !(r.Dots && strings.HasPrefix(p, ".")) {
					out[p] = s
				}
			}
			return out
		}
		mem := map[string]kept{}
		reused, changed := 0, 0
		for k := rapid.IntRange(2, 4).Draw(t, "starts"); k > 0; k-- {
			if len(repos) == 0 || rapid.IntRange(0, 2).Draw(t, "other") == 0 {
				repos = map[string]local{}
				for i := rapid.IntRange(1, 4).Draw(t, "repos"); i > 0; i-- {
					repos[fmt.Sprintf("n%d", i)] = local{rapid.SampledFrom(dirs).Draw(t, "dir"), rapid.IntRange(0, 2).Draw(t, "dots") == 0}
				}
			}
			for i := rapid.IntRange(0, 1).Draw(t, "changes"); i > 0; i-- {
				serial++
				dir := rapid.SampledFrom(dirs).Draw(t, "dir")
				hx.Must(os.WriteFile(filepath.Join(dir, "a"), []byte(fmt.Sprintf("edit %d\n", serial)), 0o644))
				delete(mem, dir)
				hist = append(hist, "edit in "+dir[len(d):])
			}
			j := start{Db: db, Max: rapid.IntRange(1, 3).Draw(t, "max"), Repos: repos, Later: map[string]map[string]string{}}
			before := map[string]map[string]string{}
			for n, r := range repos {
				before[n] = expect(r)
			}
			for _, n := range hx.Keys(repos) {
				if rapid.IntRange(0, 3).Draw(t, "later") == 0 {
					serial++
					j.Later[n] = map[string]string{"a": fmt.Sprintf("later %d\n", serial)}
					break
				}
			}
			hist = append(hist, fmt.Sprintf("start %v, later %v", strings.ReplaceAll(fmt.Sprint(repos), d, ""), j.Later))
			b, _ := json.Marshal(j)
			e := hx.Child{Env: []string{"C15_CHILD=1"}, Stdin: b}.Run()
			i := strings.Index(e.Out, "SERVED ")
			if e.Hang {
				fail("HX-HANG the process does not end\n%s", hx.Tail(e.Out+e.Err, 3000))
			}
			if i < 0 {
				fail("the process did not serve: %s", hx.Tail(e.Out+e.Err, 3000))
			}
			var v map[string]map[string]served
			hx.Must(json.Unmarshal([]byte(e.Out[i+7:]), &v))
			for n, r := range repos {
				if got := v["first"][n].Files; !hx.Same(got, before[n]) {
					fail("after the start, %s (%v) holds %q, want %q", n, r, got, before[n])
				}
				if got, want := v["second"][n].Files, expect(r); !hx.Same(got, want) {
					fail("before its end, %s (%v) holds %q, want %q", n, r, got, want)
				}
			}
			if ds := idxDirs(db); len(ds) != len(repos) {
				fail("%d index directories for %d repositories", len(ds), len(repos))
			}
			now := ofUrl(db)
			for _, dir := range dirs {
				touched := false
				for n := range j.Later {
					touched = touched || repos[n].Dir == dir
				}
				is := kept{conf(dir), map[string]map[string]string{}}
				for _, x := range now["file://"+dir] {
					is.files[x] = hx.SnapshotDir(filepath.Join(db, x))
				}
				if was, has := mem[dir]; has && was.conf == is.conf && !touched {
					for x := range is.files {
						if !hx.Same(was.files[x], is.files[x]) {
							fail("%s is unchanged, but was indexed again", dir)
						}
						reused++
					}
				} else {
					changed++
				}
				mem[dir] = is
				if is.conf == "0 0" {
					delete(mem, dir)
				}
			}
		}
		hx.Count(strings.Join(hist, "; "), reused > 0 && changed > 0, "starts in processes of their own")
		hx.Class("indexes that had to be reused by another process", int64(reused))
	})
}
