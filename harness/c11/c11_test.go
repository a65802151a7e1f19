// C11: a crash at any point never leaves an index that is reused but wrong.
// Another process starts the searchers of a database directory, follows
// updates, and is killed at a chosen system call; this repeats, then a clean
// start must serve exactly the current content and leave no other index.
package c11

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

type step struct{ Repo, Rev string }

type plan struct {
	Db    string
	Max   int
	Heads map[string]string             // repository to its revision at start
	Trees map[string]map[string]hx.Tree // repository to revision to content
	Steps []step
	Dots  bool // exclude dot-files
}

type result struct {
	Revs  map[string]string
	Files map[string]map[string]string
	Hits  map[string]map[string]string // repository to literal to what is found
	Dirs  []string
}

const lit = "foo"

func TestMain(m *testing.M) {
	if c := os.Getenv("C11_CHILD"); c != "" {
		if c == "git" {
			gitChild()
		} else {
			child()
		}
		os.Exit(0)
	}
	hx.Main(m)
}

func child() {
	var p plan
	hx.Must(json.NewDecoder(os.Stdin).Decode(&p))
	cfg := &config.Config{DbPath: p.Db, MaxConcurrentIndexers: p.Max, Repos: map[string]*config.Repo{}}
	rem := map[string]*hx.Remote{}
	for name, rev := range p.Heads {
		r := hx.NewRemote("fake://c11/"+name, rev, p.Trees[name][rev])
		rem[name] = r
		cfg.Repos[name] = hx.FakeRepo(r.Url, false, true, 0)
		cfg.Repos[name].ExcludeDotFiles = p.Dots
	}
	ss, errs, err := searcher.MakeAll(cfg)
	if err != nil || len(errs) > 0 {
		fmt.Println("FAILED", err, errs)
		os.Exit(3)
	}
	fmt.Println("STARTED")
	for _, st := range p.Steps {
		rem[st.Repo].Set(st.Rev, p.Trees[st.Repo][st.Rev])
		ss[st.Repo].Update()
		for i := 0; ; i++ {
			res, err := ss[st.Repo].Search("^$never", &index.SearchOptions{})
			if err != nil {
				fmt.Println("FAILED search", err)
				os.Exit(3)
			}
			if res.Revision == st.Rev {
				break
			}
			if i > 60000 {
				fmt.Println("FAILED update does not arrive")
				os.Exit(3)
			}
			time.Sleep(time.Millisecond)
		}
		fmt.Println("UPDATED", st)
	}
	for _, s := range ss {
		s.Stop()
		s.Wait()
	}
	out := result{Revs: map[string]string{}, Files: map[string]map[string]string{}, Hits: map[string]map[string]string{}}
	for name, s := range ss {
		for _, q := range []string{"", lit} {
			res, err := s.Search(q, &index.SearchOptions{})
			if err != nil {
				fmt.Println("FAILED search", err)
				os.Exit(3)
			}
			m := map[string]string{}
			for _, f := range res.Matches {
				var b strings.Builder
				for _, l := range f.Matches {
					b.WriteString(l.Line + "\n")
				}
				m[f.Filename] = b.String()
			}
			out.Revs[name] = res.Revision
			if q == "" {
				out.Files[name] = m
			} else {
				out.Hits[name] = m
			}
		}
	}
	fs, err := os.ReadDir(p.Db)
	hx.Must(err)
	for _, f := range fs {
		if strings.HasPrefix(f.Name(), "idx-") {
			out.Dirs = append(out.Dirs, f.Name())
		}
	}
	b, _ := json.Marshal(out)
	fmt.Println("DONE", string(b))
}

// expect is what searching a tree for every line, and for the literal, gives.
func expect(tr hx.Tree) (all, hits map[string]string) {
	all, hits = map[string]string{}, map[string]string{}
	for p, d := range tr {
		ls := hx.Lines(d)
		if len(ls) > 0 {
			all[p] = strings.Join(ls, "\n") + "\n"
		}
		for _, l := range ls {
			if strings.Contains(l, lit) {
				hits[p] += l + "\n"
			}
		}
	}
	return
}

var calls = []string{"openat", "write", "close", "mkdirat", "unlinkat", "renameat", "read", "getdents64", "newfstatat", "munmap", "mmap", "ftruncate", "lseek", "fstat"}

var traceLine = regexp.MustCompile(`(?m)^\d+ +(\w+)\(.*killed by SIGKILL`)

func TestCrash(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		names := []string{"a", "b", "c"}[:rapid.IntRange(1, 3).Draw(t, "repos")]
		trees := map[string]map[string]hx.Tree{}
		for _, n := range names {
			trees[n] = map[string]hx.Tree{}
			for _, rev := range []string{"r0", "r1", "r2"} {
				tr := hx.TreeGen(6, 5).Draw(t, n+rev)
				tr["id"] = n + " " + rev + " foo\n"
				if rapid.IntRange(0, 9).Draw(t, "big") == 9 {
					tr["big"] = strings.Repeat("some foo content of a longer file\n", 8000) + "the end foo\n"
				}
				trees[n][rev] = tr
			}
		}
		revGen := rapid.SampledFrom([]string{"r0", "r1", "r2"})
		draw := func(label string) plan {
			p := plan{Db: db, Max: rapid.IntRange(1, 3).Draw(t, label+"max"), Heads: map[string]string{}, Trees: trees}
			for _, n := range names {
				// a repository may be gone from, or come back to, the configuration
				if n == "a" || rapid.IntRange(0, 5).Draw(t, label+"in"+n) > 0 {
					p.Heads[n] = revGen.Draw(t, label+"head"+n)
				}
			}
			return p
		}
		var hist []string
		kills := 0
		var before map[string]string // the heads of the start before this one
		runs := rapid.IntRange(1, 3).Draw(t, "crashes")
		for i := 0; i < runs; i++ {
			p := draw(fmt.Sprintf("run%d ", i))
			// removing is where most can go wrong late, so it gets its share
			removing := rapid.IntRange(0, 2).Draw(t, "removing") == 0
			back(t, p, before)
			before = p.Heads
			cur := map[string]string{}
			for n, r := range p.Heads {
				cur[n] = r
			}
			most := 3
			if removing {
				most = 4
			}
			for k := rapid.IntRange(most-3, most).Draw(t, "updates"); k > 0; k-- {
				n := rapid.SampledFrom(names).Draw(t, "repo")
				r := revGen.Draw(t, "rev")
				if cur[n] == "" || cur[n] == r {
					continue
				}
				cur[n] = r
				p.Steps = append(p.Steps, step{n, r})
			}
			call := rapid.SampledFrom(calls[:5+rapid.IntRange(0, 9).Draw(t, "more")]).Draw(t, "call")
			if removing {
				call = "unlinkat"
			}
			// counted per thread by strace
			most = map[string]int{"openat": 60, "write": 60, "close": 50, "mkdirat": 12, "unlinkat": 60, "renameat": 10, "read": 60, "getdents64": 20, "munmap": 10, "mmap": 60, "ftruncate": 6}[call]
			if most == 0 {
				most = 30
			}
			when := rapid.IntRange(1, most).Draw(t, "when")
			b, _ := json.Marshal(p)
			e := hx.Child{
				Strace: []string{"-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:signal=SIGKILL:when=%d", call, when)},
				Env:    []string{"C11_CHILD=1", "GOMAXPROCS=1"},
				Stdin:  b,
			}.Run()
			how := "ran to the end"
			switch {
			case e.Hang:
				t.Fatalf("HX-HANG start or update of a database left by a crash\nhistory: %v\nplan: heads %v steps %v\n%s", hist, p.Heads, p.Steps, hx.Tail(e.Out+e.Err, 3000))
			case e.Signal == syscall.SIGKILL:
				kills++
				at := "starting"
				if strings.Contains(e.Out, "STARTED") {
					at = "updating"
				}
				if strings.Contains(e.Out, "DONE") {
					at = "ending"
				}
				how = fmt.Sprintf("killed while %s at %s #%d", at, call, when)
				hx.Class("killed while "+at+" at "+call, 1)
				hx.Class("left behind: "+leftovers(db), 1)
			case e.Code != 0:
				t.Fatalf("a start after a crash fails (exit %d)\nhistory: %v\nplan: heads %v steps %v\n%s", e.Code, hist, p.Heads, p.Steps, hx.Tail(e.Out+e.Err, 3000))
			}
			hist = append(hist, fmt.Sprintf("start%v updates%v %s", p.Heads, p.Steps, how))
		}
		// a clean start
		p := draw("final ")
		back(t, p, before)
		b, _ := json.Marshal(p)
		e := hx.Child{Env: []string{"C11_CHILD=1"}, Stdin: b}.Run()
		fail := func(what string) {
			t.Fatalf("after %v, start%v: %s\nexit %d\n%s\ntrees: %v", strings.Join(hist, "; "), p.Heads, what, e.Code, hx.Tail(e.Out+e.Err, 2000), trees)
		}
		if e.Hang {
			fail("HX-HANG the start does not finish")
		}
		i := strings.Index(e.Out, "DONE ")
		if e.Code != 0 || i < 0 {
			fail("the start fails")
		}
		var res result
		hx.Must(json.Unmarshal([]byte(e.Out[i+5:]), &res))
		for n, rev := range p.Heads {
			all, hits := expect(trees[n][rev])
			if res.Revs[n] != rev {
				fail(fmt.Sprintf("repository %s is at %q, want %q", n, res.Revs[n], rev))
			}
			if !hx.Same(res.Files[n], all) {
				fail(fmt.Sprintf("repository %s at %s holds\n%q\nwant\n%q", n, rev, res.Files[n], all))
			}
			if !hx.Same(res.Hits[n], hits) {
				fail(fmt.Sprintf("repository %s at %s: searching %q gives\n%q\nwant\n%q", n, rev, lit, res.Hits[n], hits))
			}
		}
		if len(res.Dirs) != len(p.Heads) {
			fail(fmt.Sprintf("%d index directories for %d repositories: %v", len(res.Dirs), len(p.Heads), res.Dirs))
		}
		hx.Count(strings.Join(hist, "; "), kills > 0, fmt.Sprintf("%d crashes", kills))
	})
}

// back lets the content often be what it was before, when old indexes fit again.
func back(t *rapid.T, p plan, before map[string]string) {
	if before == nil || rapid.IntRange(0, 2).Draw(t, "back") == 0 {
		return
	}
	for n := range before {
		if p.Heads[n] != "" {
			p.Heads[n] = before[n]
		}
	}
}

// leftovers describes the index directories a crash left, coarsely.
func leftovers(db string) string {
	fs, _ := os.ReadDir(db)
	var ds []string
	for _, f := range fs {
		if !strings.HasPrefix(f.Name(), "idx-") {
			continue
		}
		s := ""
		for _, x := range []string{"raw", "excluded_files.json", "tri", "metadata.gob"} {
			if fi, err := os.Stat(filepath.Join(db, f.Name(), x)); err == nil {
				s += x[:1]
				if !fi.IsDir() && fi.Size() == 0 {
					s += "0"
				}
			}
		}
		ds = append(ds, "["+s+"]")
	}
	sort.Strings(ds)
	return strings.Join(ds, "")
}
