// C15: restart reuses only the right index and cleans up the rest. Generated
// sequences of starts on one database directory, with changing configurations
// and contents, and with other things put into the directory in between.
package c15

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) {
	if os.Getenv("C15_CHILD") != "" {
		child()
		os.Exit(0)
	}
	hx.Main(m)
}

// Addresses that are nearly the same, and yet different repositories.
var addresses = []string{
	"fake://c15/Repo", "fake://c15/repo", "fake://c15/Repo.git", "fake://c15/Repo/", "fake://c15/other/Repo", "fake://c16/Repo",
	"http://c15/Repo", "fake://c15//Repo", "fake://me@c15/Repo", "fake://c15/Repo?x", "fake://c15/Re po", "fake://c15/Re%20po", "fake://c15/Repo ", "fake://c15/Repo\n", "fake://c15/Répo",
}

type repo struct {
	Url     int
	Dots    bool // exclude dot-files
	Special bool // vendor is special
	Auto    []string
}

func (r repo) String() string {
	s := fmt.Sprintf("u%d", r.Url)
	if r.Dots {
		s += " nodots"
	}
	if r.Special {
		s += " novendor"
	}
	if r.Auto != nil {
		s += fmt.Sprintf(" auto=%q", r.Auto)
	}
	return s
}

var revNames = []string{"r0", "r1", "r2"}

// expect is what the repository holds at a revision.
func (r repo) expect(tr hx.Tree) (files map[string]string, auto map[string]bool) {
	files, auto = map[string]string{}, map[string]bool{}
	for p, d := range tr {
		skip := false
		for _, s := range strings.Split(p, "/") {
			if r.Dots && s[0] == '.' || r.Special && s == "vendor" {
				skip = true
			}
		}
		if ls := hx.Lines(d); !skip && len(ls) > 0 {
			files[p] = strings.Join(ls, "\n") + "\n"
			for _, a := range r.Auto {
				if a == p {
					auto[p] = true
				}
			}
		}
	}
	return
}

func copyDir(src, dst string) {
	hx.Must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	}))
}

func idxDirs(db string) []string {
	fs, err := os.ReadDir(db)
	hx.Must(err)
	var out []string
	for _, f := range fs {
		if f.IsDir() && strings.HasPrefix(f.Name(), "idx-") {
			out = append(out, f.Name())
		}
	}
	return out
}

// ofUrl groups the index directories by what their manifests say.
func ofUrl(db string) map[string][]string {
	m := map[string][]string{}
	for _, x := range idxDirs(db) {
		ref, err := index.Read(filepath.Join(db, x))
		if err == nil {
			m[ref.Url] = append(m[ref.Url], x)
		}
	}
	return m
}

func TestRestart(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		db := filepath.Join(d, rapid.SampledFrom([]string{"db", "db", "d[b]", "d*b?", "[x", "a b", "-db", `d\b`}).Draw(t, "dbname"))
		hx.Must(os.Mkdir(db, 0o755))
		nu := rapid.IntRange(1, 4).Draw(t, "urls")
		urls := rapid.SliceOfNDistinct(rapid.SampledFrom(addresses), nu, nu, rapid.ID[string]).Draw(t, "addresses")
		var remotes []*hx.Remote
		trees := make([]map[string]hx.Tree, nu)
		heads := make([]string, nu)
		auto := []string{"gen.pb", "lib/gen.go", ".dot", "vendor/x"}
		for u := 0; u < nu; u++ {
			trees[u] = map[string]hx.Tree{}
			for _, rev := range revNames {
				tr := hx.TreeGen(2, 3).Draw(t, "tree")
				for _, p := range []string{"gen.pb", "lib/gen.go", ".dot", ".d/x", "vendor/x", "lib/vendor/y"} {
					if rapid.Bool().Draw(t, "has") {
						tr.AddPath(p, "foo in "+p+"\n")
					}
				}
				tr["id"] = fmt.Sprintf("u%d %s\n", u, rev)
				trees[u][rev] = tr
			}
			heads[u] = rapid.SampledFrom(revNames).Draw(t, "head")
			remotes = append(remotes, hx.NewRemote(urls[u], heads[u], trees[u][heads[u]]))
		}
		setHead := func(u int, rev string) {
			heads[u] = rev
			remotes[u].Set(rev, trees[u][rev])
		}
		foreign := map[string]string{} // path relative to db, content
		hist := []string{fmt.Sprintf("%q", urls)}
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s\ntrees: %v", fmt.Sprintf(f, a...), strings.Join(hist, "; "), trees)
		}
		repoGen := func(i int) repo {
			r := repo{Url: rapid.IntRange(0, nu-1).Draw(t, "url")}
			r.Dots = rapid.IntRange(0, 2).Draw(t, "dots") == 0
			r.Special = rapid.IntRange(0, 2).Draw(t, "special") == 0
			if rapid.IntRange(0, 2).Draw(t, "auto") == 0 {
				r.Auto = auto[:rapid.IntRange(1, len(auto)).Draw(t, "autos")]
			}
			return r
		}
		var repos map[string]repo
		// what the last start knew of each url: the repositories, the revision, the directories
		type memory struct {
			conf, rev string
			dirs      map[string]map[string]string
		}
		mem := map[int]memory{}
		confOf := func(u int) (string, int) {
			var cs []string
			for _, r := range repos {
				if r.Url == u {
					cs = append(cs, r.String())
				}
			}
			sort.Strings(cs)
			return strings.Join(cs, "|"), len(cs)
		}
		reused, rebuilt, swept := 0, 0, 0
		starts := rapid.IntRange(2, 4).Draw(t, "starts")
		for s := 0; s < starts; s++ {
			// the configuration: new, or as before, or with one repository changed
			switch k := rapid.IntRange(0, 3).Draw(t, "config"); {
			case repos == nil || k == 0:
				repos = map[string]repo{}
				for i := rapid.IntRange(1, 4).Draw(t, "repos"); i > 0; i-- {
					repos[fmt.Sprintf("n%d", i)] = repoGen(i)
				}
			case k == 1:
				repos[fmt.Sprintf("n%d", rapid.IntRange(1, 4).Draw(t, "which"))] = repoGen(0)
			}
			cfg := &config.Config{DbPath: db, MaxConcurrentIndexers: rapid.IntRange(1, 4).Draw(t, "max"), Repos: map[string]*config.Repo{}}
			for n, r := range repos {
				c := hx.FakeRepo(remotes[r.Url].Url, false, true, 0)
				c.ExcludeDotFiles, c.AutoGeneratedFiles = r.Dots, r.Auto
				if r.Special {
					m := config.SecretMessage(`{"special":["vendor"]}`)
					c.VcsConfigMessage = &m
				}
				cfg.Repos[n] = c
			}
			broken := -1
			for u := range remotes {
				remotes[u].SetMode(hx.OK)
			}
			if rapid.IntRange(0, 5).Draw(t, "broken") == 0 {
				broken = rapid.IntRange(0, nu-1).Draw(t, "which")
				remotes[broken].SetMode(hx.FailPull)
			}
			say("start%v at %v broken=%d", repos, heads, broken)
			var ss map[string]*searcher.Searcher
			var errs map[string]error
			var err error
			hx.Bounded(t, "MakeAll", func() { ss, errs, err = searcher.MakeAll(cfg) })
			if err != nil {
				fail("MakeAll: %v", err)
			}
			live := 0
			verify := func(when string) {
				for n, r := range repos {
					if r.Url == broken {
						continue
					}
					for _, q := range []string{"", "foo"} {
						res, err := ss[n].Search(q, &index.SearchOptions{})
						if err != nil {
							fail("%s: searching %s fails: %v", when, n, err)
						}
						files, gen := r.expect(trees[r.Url][heads[r.Url]])
						if res.Revision != heads[r.Url] {
							fail("%s: %s is at %q, want %q", when, n, res.Revision, heads[r.Url])
						}
						got := map[string]string{}
						for _, f := range res.Matches {
							for _, l := range f.Matches {
								got[f.Filename] += l.Line + "\n"
							}
							if f.AutoGenerated != gen[f.Filename] {
								fail("%s: %s: %q is marked auto-generated: %v", when, n, f.Filename, f.AutoGenerated)
							}
						}
						if q != "" {
							for p, x := range files {
								if files[p] = ""; strings.Contains(x, q) {
									for _, l := range hx.Lines(x) {
										if strings.Contains(l, q) {
											files[p] += l + "\n"
										}
									}
								}
								if files[p] == "" {
									delete(files, p)
								}
							}
						}
						if !hx.Same(got, files) {
							fail("%s: searching %q in %s(%v) finds %q, want %q", when, q, n, r, got, files)
						}
					}
				}
				if ds := idxDirs(db); len(ds) != live {
					fail("%s: %d index directories for %d repositories: %v", when, len(ds), live, ds)
				}
				for p, want := range foreign {
					b, err := os.ReadFile(filepath.Join(db, p))
					if err != nil || string(b) != want {
						fail("%s: %q in the database directory, which is no index, was touched: %v", when, p, err)
					}
				}
			}
			for n, r := range repos {
				if (r.Url == broken) != (errs[n] != nil) || (ss[n] != nil) == (errs[n] != nil) {
					fail("%s: searcher %v, error %v", n, ss[n] != nil, errs[n])
				}
				if r.Url != broken {
					live++
				}
			}
			verify("after the start")
			now := ofUrl(db)
			for u := range remotes {
				conf, count := confOf(u)
				was, has := mem[u]
				ds := now[remotes[u].Url]
				if u == broken {
					delete(mem, u)
					continue
				}
				if len(ds) != count {
					fail("%d indexes of u%d for %d repositories", len(ds), u, count)
				}
				if has && was.conf == conf && was.rev == heads[u] {
					for _, x := range ds {
						if !hx.Same(was.dirs[x], hx.SnapshotDir(filepath.Join(db, x))) {
							fail("u%d is unchanged, but was indexed again", u)
						}
						reused++
					}
				} else {
					rebuilt += count
				}
			}
			// updates: the others must not notice
			for k := rapid.IntRange(0, 2).Draw(t, "updates"); k > 0; k-- {
				u := rapid.IntRange(0, nu-1).Draw(t, "u")
				rev := rapid.SampledFrom(revNames).Draw(t, "rev")
				if u == broken || rev == heads[u] {
					continue
				}
				setHead(u, rev)
				say("u%d becomes %s", u, rev)
				for n, r := range repos {
					if r.Url != u {
						continue
					}
					ss[n].Update()
					hx.Eventually(t, "an update arrives", func() bool {
						res, err := ss[n].Search("foo", &index.SearchOptions{})
						if err != nil {
							fail("search: %v", err)
						}
						return res.Revision == rev
					})
				}
			}
			for _, x := range ss {
				x.Stop()
				hx.Bounded(t, "Wait", x.Wait)
			}
			verify("after updates")
			now = ofUrl(db)
			for u := range remotes {
				delete(mem, u)
				conf, count := confOf(u)
				if u == broken || count == 0 {
					continue
				}
				m := memory{conf: conf, rev: heads[u], dirs: map[string]map[string]string{}}
				for _, x := range now[remotes[u].Url] {
					m.dirs[x] = hx.SnapshotDir(filepath.Join(db, x))
				}
				mem[u] = m
			}
			if s == starts-1 {
				break
			}
			// while it is down
			for k := rapid.IntRange(0, 3).Draw(t, "meanwhile"); k > 0; k-- {
				switch rapid.IntRange(0, 6).Draw(t, "what") {
				case 0:
					u := rapid.IntRange(0, nu-1).Draw(t, "u")
					setHead(u, rapid.SampledFrom(revNames).Draw(t, "rev"))
					say("meanwhile u%d is %s", u, heads[u])
				case 1: // something else lies there
					p := rapid.SampledFrom([]string{"notes", "idx-notes.txt", "idxold/x", "index-1/metadata.gob", "vcs-0000/file", ".idx-1/x", "sub/idx-1/metadata.gob"}).Draw(t, "name")
					if _, has := foreign[p]; has {
						continue
					}
					foreign[p] = "mine " + p
					hx.Must(os.MkdirAll(filepath.Dir(filepath.Join(db, p)), 0o755))
					hx.Must(os.WriteFile(filepath.Join(db, p), []byte(foreign[p]), 0o644))
					say("%q appears", p)
				case 2, 3: // remains of an index
					x := filepath.Join(db, fmt.Sprintf("idx-%08x", rapid.IntRange(0, 1<<30).Draw(t, "junk")))
					hx.Must(os.MkdirAll(filepath.Join(x, "raw"), 0o755))
					if rapid.Bool().Draw(t, "some") {
						hx.Must(os.WriteFile(filepath.Join(x, "raw/f"), nil, 0o644))
						hx.Must(os.WriteFile(filepath.Join(x, "metadata.gob"), []byte(rapid.SampledFrom([]string{"", "x", "\x03\x04\x00"}).Draw(t, "gob")), 0o644))
					}
					say("remains of an index appear")
					swept++
				case 4, 5: // a copy of an index, as of another repository with the same content
					ds := idxDirs(db)
					if len(ds) == 0 {
						continue
					}
					x := rapid.SampledFrom(ds).Draw(t, "original")
					y := filepath.Join(db, fmt.Sprintf("idx-%08x", rapid.IntRange(0, 1<<30).Draw(t, "copy")))
					if _, err := os.Stat(y); err == nil {
						continue
					}
					copyDir(filepath.Join(db, x), y)
					// the copy may be used instead of the original
					for u := range mem {
						if m := mem[u]; m.dirs[x] != nil {
							m.dirs[filepath.Base(y)] = m.dirs[x]
						}
					}
					say("an index is there twice")
					swept++
				}
			}
		}
		b, _ := json.Marshal(foreign)
		hx.Count(strings.Join(hist, "; ")+string(b), reused > 0 || swept > 0 || rebuilt > 0)
		hx.Class("indexes that had to be reused", int64(reused))
		hx.Class("indexes that could be rebuilt", int64(rebuilt))
		hx.Class("leftovers to sweep", int64(swept))
	})
}
