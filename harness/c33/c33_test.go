// C33: a search that cannot read a file of the index says so. Generated trees
// and searches on indexes whose copies of files are damaged in generated ways.
package c33

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// damage spoils the file at p and says how.
func damage(t *rapid.T, p string) string {
	b, err := os.ReadFile(p)
	hx.Must(err)
	switch k := rapid.IntRange(0, 9).Draw(t, "damage"); k {
	case 0:
		hx.Must(os.Remove(p))
		return "removed"
	case 1:
		hx.Must(os.Remove(p))
		hx.Must(os.Mkdir(p, 0o755)) // can be opened, but not read
		return "replaced by a directory"
	case 2:
		hx.Must(os.Chmod(p, 0))
		return "made unreadable"
	case 3:
		hx.Must(os.Truncate(p, 0))
		return "emptied"
	case 4, 5, 6:
		n := rapid.IntRange(1, len(b)-1).Draw(t, "size")
		if k == 6 {
			n = len(b) - rapid.IntRange(1, min(len(b)-1, 10)).Draw(t, "less")
		}
		hx.Must(os.Truncate(p, int64(n)))
		return fmt.Sprintf("cut from %d to %d bytes", len(b), n)
	case 7, 8:
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		b[i] ^= byte(rapid.IntRange(1, 255).Draw(t, "xor"))
		hx.Must(os.WriteFile(p, b, 0o644))
		return fmt.Sprintf("byte %d of %d changed", i, len(b))
	default:
		i := rapid.IntRange(0, len(b)-1).Draw(t, "from")
		for j := i; j < len(b) && j < i+512; j++ {
			b[j] = 0
		}
		hx.Must(os.WriteFile(p, b, 0o644))
		return fmt.Sprintf("zeros from byte %d of %d", i, len(b))
	}
}

// tree has some files that are longer when compressed.
func tree(t *rapid.T) hx.Tree {
	tr := hx.TreeGen(6, 12).Draw(t, "tree")
	for i := rapid.IntRange(0, 2).Draw(t, "longer"); i > 0; i-- {
		var b strings.Builder
		x := rapid.Uint32().Draw(t, "noise")
		for n := rapid.IntRange(200, 12000).Draw(t, "lines"); n > 0; n-- {
			x = x*1664525 + 1013904223
			fmt.Fprintf(&b, "%08x foo %x\n", x, x>>7)
		}
		tr.AddPath(fmt.Sprintf("long%d", i), b.String())
	}
	return tr
}

func TestDamaged(t *testing.T) {
	if os.Getuid() == 0 {
		hx.Env("must not run as root")
	}
	rapid.Check(t, func(t *rapid.T) {
		tr := tree(t)
		ix, dir, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		raw := filepath.Join(dir, "raw")
		defer filepath.Walk(raw, func(p string, i os.FileInfo, err error) error {
			os.Chmod(p, 0o755)
			return nil
		})
		lines := tr.AllLines()
		type query struct {
			pat  string
			opt  index.SearchOptions
			want string
		}
		flat := func(r *index.SearchResponse) string {
			b, err := json.Marshal(r)
			hx.Must(err)
			return string(b)
		}
		var qs []query
		for i := rapid.IntRange(1, 8).Draw(t, "queries"); i > 0; i-- {
			q := query{pat: rapid.OneOf(hx.PatternGenAll(lines), rapid.SampledFrom([]string{"", "foo", "a", "x$", "^"})).Draw(t, "pat")}
			q.opt.IgnoreCase = rapid.Bool().Draw(t, "icase")
			q.opt.LinesOfContext = uint(rapid.IntRange(0, 2).Draw(t, "context"))
			q.opt.MaxResults = rapid.SampledFrom([]int{0, 0, 0, 1, 5}).Draw(t, "max")
			q.opt.Limit = rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "limit")
			q.opt.Offset = rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "offset")
			var res *index.SearchResponse
			var err error
			hx.Bounded(t, fmt.Sprintf("search %q", q.pat), func() { res, err = ix.Search(q.pat, &q.opt) })
			if err != nil {
				continue
			}
			q.want = flat(res)
			qs = append(qs, q)
		}
		var paths []string
		for p := range tr {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		var hist []string
		var spoilt []string
		for i := rapid.IntRange(1, 3).Draw(t, "damages"); i > 0 && len(paths) > 0; i-- {
			k := rapid.IntRange(0, len(paths)-1).Draw(t, "which")
			f := filepath.Join(raw, paths[k])
			if st, err := os.Lstat(f); err != nil || !st.Mode().IsRegular() || st.Size() < 2 {
				continue // not indexed
			}
			hist = append(hist, fmt.Sprintf("%q %s", paths[k], damage(t, f)))
			spoilt = append(spoilt, paths[k])
			paths = append(paths[:k], paths[k+1:]...)
		}
		failed := 0
		for _, q := range qs {
			// a search that was fine before and one after a failed one
			for again := 0; again < 2; again++ {
				var res *index.SearchResponse
				var err error
				hx.Bounded(t, fmt.Sprintf("search %q", q.pat), func() { res, err = ix.Search(q.pat, &q.opt) })
				if err != nil {
					failed++
					continue
				}
				if res == nil {
					t.Fatalf("search %q %+v: neither a response nor an error; %v", q.pat, q.opt, hist)
				}
				if got := flat(res); got != q.want {
					t.Fatalf("search %q %+v succeeds, but with another answer than before %v:\nbefore %.1500s\nnow    %.1500s\ntree: %v", q.pat, q.opt, hist, q.want, got, tr)
				}
			}
		}
		hx.Count(fmt.Sprintf("%q %v %v", qs, hist, tr), failed > 0)
		hx.Class("failed searches", int64(failed))
	})
}

// TestApi: one of several repositories has a damaged file.
func TestApi(t *testing.T) {
	if os.Getuid() == 0 {
		hx.Env("must not run as root")
	}
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, 3)
		n := rapid.IntRange(1, 3).Draw(t, "repos")
		for i := 0; i < n; i++ {
			tr := tree(t)
			tr["needle"] = fmt.Sprintf("needle%d foo\n", i)
			w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c33/%d", i), false, false, 1000, tr)
		}
		if errs := w.Start(t); len(errs) > 0 {
			t.Fatalf("start: %v", errs)
		}
		defer w.Stop(t)
		idx := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			idx[r.Name] = r.S
		}
		mux := http.NewServeMux()
		api.Setup(mux, idx, config.Config{ResultLimit: 5000}.ResultLimit)
		ask := func(q, repos string) (a struct {
			Results map[string]*index.SearchResponse
			Error   string
		}) {
			v := url.Values{"q": {q}, "repos": {repos}}
			rec := httptest.NewRecorder()
			hx.Bounded(t, "request", func() {
				mux.ServeHTTP(rec, httptest.NewRequest("GET", "/api/v1/search?"+v.Encode(), nil))
			})
			if err := json.Unmarshal(rec.Body.Bytes(), &a); err != nil {
				t.Fatalf("search %q in %s: %v in %q", q, repos, err, rec.Body.String())
			}
			return
		}
		flat := func(m map[string]*index.SearchResponse) string {
			b, err := json.Marshal(m)
			hx.Must(err)
			return string(b)
		}
		queries := []string{"", "foo", "needle", "needle0", "needle2", "a"}
		names := []string{"*"}
		for _, r := range w.Repos {
			names = append(names, r.Name)
		}
		before := map[string]string{}
		for _, q := range queries {
			for _, r := range names {
				a := ask(q, r)
				if a.Error != "" {
					t.Fatalf("search %q in %s: %s", q, r, a.Error)
				}
				before[q+" in "+r] = flat(a.Results)
			}
		}
		r := rapid.SampledFrom(w.Repos).Draw(t, "repo")
		var dir string
		for _, x := range w.IdxDirs() {
			if ref, err := index.Read(filepath.Join(w.Db, x)); err == nil && ref.Url == r.Conf.Url {
				dir = filepath.Join(w.Db, x)
			}
		}
		f := filepath.Join(dir, "raw", rapid.SampledFrom([]string{"needle", "id"}).Draw(t, "file"))
		how := damage(t, f)
		defer os.Chmod(f, 0o755)
		failed := 0
		for _, q := range queries {
			for _, n := range names {
				a := ask(q, n)
				what := fmt.Sprintf("search %q in %s after a file of %s was %s", q, n, r.Name, how)
				if a.Error != "" {
					failed++
					if n != "*" && n != r.Name {
						t.Fatalf("%s: %s", what, a.Error)
					}
					if len(a.Results) > 0 {
						t.Fatalf("%s: an error and results", what)
					}
					continue
				}
				if got := flat(a.Results); got != before[q+" in "+n] {
					t.Fatalf("%s succeeds with another answer:\nbefore %.1500s\nnow    %.1500s", what, before[q+" in "+n], got)
				}
			}
		}
		hx.Count(fmt.Sprintf("%d %s %s %s", n, r.Name, f[len(f)-2:], how), failed > 0)
	})
}
