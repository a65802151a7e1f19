package hx

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
)

// World is a set of fake repositories, their published histories and the
// searchers over them. Every answer is checked against the history.
type World struct {
	Db    string
	Cfg   *config.Config
	Repos []*WRepo
}

// WRev is one published revision.
type WRev struct {
	Name  string
	No    int
	Tree  Tree
	Files map[string]string // what a search for every line returns
	Hits  map[string]string // what a search for the literal foo returns
	Out   string            // the excluded file
	Bad   bool              // must never be served
}

// WRepo is one repository of the world.
type WRepo struct {
	Name string
	R    *Remote
	Conf *config.Repo
	S    *searcher.Searcher

	mu       sync.Mutex
	revs     map[string]*WRev
	list     []*WRev
	seen     int // newest revision seen in an answer
	Searches int
}

const WLit = "foo"

// NewWorld makes the database directory.
func NewWorld(dir string, max int) *World {
	db := filepath.Join(dir, "db")
	Must(os.MkdirAll(db, 0o755))
	return &World{Db: db, Cfg: &config.Config{DbPath: db, MaxConcurrentIndexers: max, Repos: map[string]*config.Repo{}}}
}

// Add adds a repository; url may carry "#branch".
func (w *World) Add(name, url string, poll, push bool, ms int, first Tree) *WRepo {
	r := &WRepo{Name: name, revs: map[string]*WRev{}, seen: -1}
	r.R = NewRemote(url, "", nil)
	base, ref, _ := strings.Cut(url, "#")
	r.Conf = FakeRepo(base, poll, push, ms)
	if ref != "" {
		b, _ := json.Marshal(map[string]string{"ref": ref})
		m := config.SecretMessage(b)
		r.Conf.VcsConfigMessage = &m
	}
	w.Cfg.Repos[name] = r.Conf
	w.Repos = append(w.Repos, r)
	r.Publish(first, false)
	return r
}

// Publish makes tr the next revision of the remote.
func (r *WRepo) Publish(tr Tree, bad bool) *WRev {
	r.mu.Lock()
	n := len(r.list)
	v := &WRev{Name: fmt.Sprintf("%s-%d", r.Name, n), No: n, Bad: bad, Files: map[string]string{}, Hits: map[string]string{}}
	tr = tr.Clone()
	tr["id"] = v.Name + " foo\n"
	v.Tree = tr
	v.Out = fmt.Sprintf("binary-%d", n)
	full := tr.Clone()
	full[v.Out] = "\xff\xfe"
	for p, d := range tr {
		ls := Lines(d)
		if len(ls) > 0 {
			v.Files[p] = strings.Join(ls, "\n") + "\n"
		}
		for _, l := range ls {
			if strings.Contains(l, WLit) {
				v.Hits[p] += l + "\n"
			}
		}
	}
	r.revs[v.Name] = v
	r.list = append(r.list, v)
	r.mu.Unlock()
	r.R.Set(v.Name, full)
	return v
}

// Head is the newest revision published.
func (r *WRepo) Head() *WRev {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.list[len(r.list)-1]
}

// SetBad says whether the newest revision may be served.
func (r *WRepo) SetBad(bad bool) {
	r.mu.Lock()
	r.list[len(r.list)-1].Bad = bad
	r.mu.Unlock()
}

// Seen is the newest revision seen in an answer.
func (r *WRepo) Seen() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.seen
}

// Start starts all searchers. It returns what MakeAll reports per repository.
func (w *World) Start(t TB) map[string]error {
	var ss map[string]*searcher.Searcher
	var errs map[string]error
	var err error
	Bounded(t, "MakeAll", func() { ss, errs, err = searcher.MakeAll(w.Cfg) })
	if err != nil {
		t.Fatalf("MakeAll failed as a whole: %v", err)
	}
	for _, r := range w.Repos {
		r.S = ss[r.Name]
		if r.S == nil && errs[r.Name] == nil {
			t.Fatalf("MakeAll reports neither a searcher nor an error for %s", r.Name)
		}
		if r.S != nil && errs[r.Name] != nil {
			t.Fatalf("MakeAll reports both a searcher and an error for %s", r.Name)
		}
	}
	if len(ss)+len(errs) != len(w.Cfg.Repos) {
		t.Fatalf("MakeAll returns %d searchers and %d errors for %d repositories", len(ss), len(errs), len(w.Cfg.Repos))
	}
	return errs
}

// Stop stops all searchers and waits for them.
func (w *World) Stop(t TB) {
	for _, r := range w.Repos {
		if r.S != nil {
			r.S.Stop()
		}
	}
	for _, r := range w.Repos {
		if r.S != nil {
			Bounded(t, "Wait after Stop", r.S.Wait)
		}
	}
}

func flat(res *index.SearchResponse) map[string]string {
	m := map[string]string{}
	for _, f := range res.Matches {
		var b strings.Builder
		for _, l := range f.Matches {
			b.WriteString(l.Line + "\n")
		}
		m[f.Filename] += b.String()
	}
	return m
}

// Check searches once and judges the answer. kind 0 searches every line, 1
// the literal, 2 lists the excluded files.
func (r *WRepo) Check(kind int) (no int, err error) {
	floor := r.Seen()
	var got map[string]string
	var rev string
	if kind == 2 {
		s := r.S.GetExcludedFiles()
		var ex []index.ExcludedFile
		if err := json.Unmarshal([]byte(s), &ex); err != nil {
			return 0, fmt.Errorf("%s: the exclusion list is %q: %v", r.Name, s, err)
		}
		if len(ex) != 1 {
			return 0, fmt.Errorf("%s: the exclusion list is %q", r.Name, s)
		}
		rev = strings.Replace(ex[0].Filename, "binary", r.Name, 1)
	} else {
		res, err := r.S.Search([]string{"", WLit}[kind], &index.SearchOptions{})
		if err != nil {
			return 0, fmt.Errorf("%s: search fails: %v", r.Name, err)
		}
		rev = res.Revision
		got = flat(res)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Searches++
	v := r.revs[rev]
	if v == nil {
		return 0, fmt.Errorf("%s: an answer reports revision %q, which was never published", r.Name, rev)
	}
	if v.Bad {
		return 0, fmt.Errorf("%s: an answer reports revision %q, which cannot have been indexed", r.Name, rev)
	}
	if v.No < floor {
		return 0, fmt.Errorf("%s: revisions go backwards: %q after %q", r.Name, rev, r.list[floor].Name)
	}
	if v.No > r.seen {
		r.seen = v.No
	}
	want := v.Files
	if kind == 1 {
		want = v.Hits
	}
	if kind < 2 && !Same(got, want) {
		return 0, fmt.Errorf("%s: the answer for revision %q is not that revision's: %s", r.Name, rev, diffFiles(want, got))
	}
	return v.No, nil
}

func diffFiles(want, got map[string]string) string {
	var ps []string
	for p := range want {
		ps = append(ps, p)
	}
	for p := range got {
		if _, dup := want[p]; !dup {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	for _, p := range ps {
		w, a := want[p]
		g, b := got[p]
		if a != b || w != g {
			return fmt.Sprintf("file %q: want %v %s, got %v %s", p, a, Q(w), b, Q(g))
		}
	}
	return ""
}

// Observers search all started repositories until stopped.
type Observers struct {
	stop chan struct{}
	wg   sync.WaitGroup
	mu   sync.Mutex
	err  error
	n    int
}

// Observe starts n of them.
func (w *World) Observe(n int) *Observers {
	o := &Observers{stop: make(chan struct{})}
	for i := 0; i < n; i++ {
		o.wg.Add(1)
		go func(i int) {
			defer o.wg.Done()
			for k := i; ; k++ {
				select {
				case <-o.stop:
					return
				default:
				}
				r := w.Repos[k%len(w.Repos)]
				if r.S == nil {
					continue
				}
				_, err := r.Check((k / len(w.Repos)) % 3)
				o.mu.Lock()
				o.n++
				if err != nil && o.err == nil {
					o.err = err
				}
				bad := o.err != nil
				o.mu.Unlock()
				if bad {
					return
				}
			}
		}(i)
	}
	return o
}

// ObserveFast adds n observers whose searches find nothing, or that only list
// the excluded files, and so are short: between two of them an index can go away.
func (w *World) ObserveFast(o *Observers, n int) {
	for i := 0; i < n; i++ {
		o.wg.Add(1)
		go func(i int) {
			defer o.wg.Done()
			for k := i; ; k++ {
				select {
				case <-o.stop:
					return
				default:
				}
				r := w.Repos[k%len(w.Repos)]
				if r.S == nil {
					continue
				}
				for j := 0; j < 16; j++ {
					if i%2 == 1 {
						// or a look at the list of what is not searched
						if _, err := r.Check(2); err != nil {
							o.mu.Lock()
							if o.err == nil {
								o.err = err
							}
							o.mu.Unlock()
							return
						}
						continue
					}
					res, err := r.S.Search("\x01no\x02such\x03text", &index.SearchOptions{})
					if err == nil && len(res.Matches) > 0 {
						err = fmt.Errorf("%s: a match of a text that no file holds", r.Name)
					}
					if err != nil {
						o.mu.Lock()
						if o.err == nil {
							o.err = fmt.Errorf("%s: short search: %v", r.Name, err)
						}
						o.mu.Unlock()
						return
					}
				}
			}
		}(i)
	}
}

// LeaseInIndex stops searches of r when they open a file that every search for
// all lines reads; nil if its index cannot be found.
func (w *World) LeaseInIndex(r *WRepo) *Lease {
	for _, d := range w.IdxDirs() {
		dir := filepath.Join(w.Db, d)
		ref, err := index.Read(dir)
		if err != nil || ref.Url != r.Conf.Url || !strings.HasPrefix(ref.Rev, r.Name+"-") {
			continue
		}
		return TakeLease(filepath.Join(dir, "raw", "id"))
	}
	return nil
}

// NewObservers makes an empty set.
func NewObservers() *Observers { return &Observers{stop: make(chan struct{})} }

// Err is the first complaint of an observer.
func (o *Observers) Err() error {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.err
}

// Stop ends the observers and returns how often they searched.
func (o *Observers) Stop() (int, error) {
	select {
	case <-o.stop:
	default:
		close(o.stop)
	}
	o.wg.Wait()
	return o.n, o.err
}

// IdxDirs lists the index directories of the database.
func (w *World) IdxDirs() []string {
	fs, err := os.ReadDir(w.Db)
	Must(err)
	var out []string
	for _, f := range fs {
		if strings.HasPrefix(f.Name(), "idx-") {
			out = append(out, f.Name())
		}
	}
	return out
}

// SmallTree makes the little trees these histories use.
func SmallTree(t *rapid.T, label string) Tree { return TreeGen(4, 5).Draw(t, label) }
