// C12: a build that hits an I/O error fails, it never silently truncates.
// Builds run in another process whose system calls are made to fail (strace
// injection), or that may not read parts of the source tree (permissions).
package c12

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

const nobody = 65534

type job struct {
	Kind  string // build, read, start
	Src   string
	Dst   string
	Lits  []string
	Repos map[string]string // start: name to source directory
	Db    string
	Again []string // start: repositories that are updated after the damage
	Limit uint64 // build: the largest size of a file
}

type result struct {
	Err   string
	Files map[string]string
	Hits  map[string]map[string]string
	Excl  []string
}

func TestMain(m *testing.M) {
	if os.Getenv("C12_CHILD") != "" {
		child()
		os.Exit(0)
	}
	hx.Main(m)
}

func say(tag string, v interface{}) {
	b, _ := json.Marshal(v)
	fmt.Println(tag, string(b))
}

type finder interface {
	Search(string, *index.SearchOptions) (*index.SearchResponse, error)
}

func content(ix finder, lits []string) (r result) {
	r.Files, r.Hits = map[string]string{}, map[string]map[string]string{}
	for _, q := range append([]string{""}, lits...) {
		res, err := ix.Search(q, &index.SearchOptions{LiteralSearch: q != ""})
		if err != nil {
			return result{Err: "search: " + err.Error()}
		}
		m := map[string]string{}
		for _, f := range res.Matches {
			var b strings.Builder
			for _, l := range f.Matches {
				b.WriteString(l.Line + "\n")
			}
			m[f.Filename] = b.String()
		}
		if q == "" {
			r.Files = m
		} else {
			r.Hits[q] = m
		}
	}
	return r
}

func child() {
	var j job
	hx.Must(json.NewDecoder(os.Stdin).Decode(&j))
	switch j.Kind {
	case "build":
		if j.Limit > 0 {
			// writing beyond it fails with EFBIG
			signal.Ignore(syscall.SIGXFSZ)
			hx.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: j.Limit, Max: j.Limit}))
		}
		_, err := index.Build(&index.IndexOptions{}, j.Dst, j.Src, "url", "rev")
		if err != nil {
			say("ERROR", err.Error())
			return
		}
		say("BUILT", nil)
	case "read":
		ix, err := index.Open(j.Dst)
		if err != nil {
			say("CONTENT", result{Err: "open: " + err.Error()})
			return
		}
		r := content(ix, j.Lits)
		b, err := os.ReadFile(filepath.Join(j.Dst, "excluded_files.json"))
		if err != nil {
			r.Err = err.Error()
		}
		var ex []index.ExcludedFile
		if err := json.Unmarshal(b, &ex); err != nil {
			r.Err = "exclusion list: " + err.Error()
		}
		for _, e := range ex {
			r.Excl = append(r.Excl, e.Filename)
		}
		say("CONTENT", r)
	case "start":
		start(j)
	}
}

// start brings up searchers over source directories some of which cannot be read.
func start(j job) {
	cfg := &config.Config{DbPath: j.Db, MaxConcurrentIndexers: 2, Repos: map[string]*config.Repo{}}
	yes, no := true, false
	msg := config.SecretMessage(`{"watch-changes":false}`)
	for n, dir := range j.Repos {
		cfg.Repos[n] = &config.Repo{Url: "file://" + dir, Vcs: "local", VcsConfigMessage: &msg, EnablePollUpdates: &no, EnablePushUpdates: &yes}
	}
	ss, errs, err := searcher.MakeAll(cfg)
	if err != nil {
		say("FATAL", err.Error())
		return
	}
	bad := map[string]string{}
	for n, e := range errs {
		bad[n] = e.Error()
	}
	good := map[string]result{}
	for n, s := range ss {
		good[n] = content(s, j.Lits)
	}
	fs, err := os.ReadDir(j.Db)
	hx.Must(err)
	idx := 0
	for _, f := range fs {
		if strings.HasPrefix(f.Name(), "idx-") {
			idx++
		}
	}
	say("STARTED", map[string]interface{}{"bad": bad, "good": good, "idx": idx})
}

func want(tr hx.Tree, lits []string) (files map[string]string, hits map[string]map[string]string) {
	files, hits = map[string]string{}, map[string]map[string]string{}
	for _, q := range lits {
		hits[q] = map[string]string{}
	}
	for p, d := range tr {
		ls := hx.Lines(d)
		if len(ls) > 0 {
			files[p] = strings.Join(ls, "\n") + "\n"
		}
		for _, q := range lits {
			for _, l := range ls {
				if strings.Contains(l, q) {
					hits[q][p] += l + "\n"
				}
			}
		}
	}
	return
}

func genTree(t *rapid.T) hx.Tree {
	tr := hx.TreeGen(6, 6).Draw(t, "tree")
	for k, size := range []int{700, 6000, 150000, 1 << 21} {
		if rapid.IntRange(0, 3+2*k).Draw(t, fmt.Sprint("size", size)) == 0 {
			unit := "line " + fmt.Sprint(k) + " of a file foo bar" + strings.Repeat(" .", 25<<(3*k/2)) + "\n"
			tr.AddPath(fmt.Sprintf("d%d/size%d", k, size), strings.Repeat(unit, size/len(unit))+fmt.Sprintf("the last line %d quux\n", k))
		}
	}
	return tr
}

var failed = regexp.MustCompile(`(?m)^\d+ +(\w+)\(.*\(INJECTED\)`)

func inject(t *rapid.T) (spec []string, what string) {
	type call struct {
		name string
		errs []string
		most int
	}
	calls := []call{
		{"openat", []string{"EACCES", "EMFILE", "EIO", "ENOENT", "ENOSPC"}, 50},
		{"read", []string{"EIO", "EISDIR"}, 60},
		{"write", []string{"ENOSPC", "EIO", "EDQUOT"}, 60},
		{"close", []string{"EIO", "ENOSPC"}, 50},
		{"mkdirat", []string{"ENOSPC", "EACCES"}, 12},
		{"getdents64", []string{"EIO"}, 14},
		{"newfstatat", []string{"EIO", "EACCES"}, 30},
		{"mmap", []string{"ENOMEM", "EIO"}, 60},
		{"fstat", []string{"EIO"}, 10},
		{"copy_file_range", []string{"ENOSPC", "EDQUOT", "EFBIG"}, 3},
	}
	k := rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 5, 6, 6, 7, 8, 9, 9}).Draw(t, "call")
	c := calls[k]
	e := rapid.SampledFrom(c.errs).Draw(t, "error")
	when := fmt.Sprint(rapid.IntRange(1, c.most).Draw(t, "when"))
	switch rapid.IntRange(0, 3).Draw(t, "how long") {
	case 0:
		when += "+" // from then on
	case 1:
		when += fmt.Sprintf("..%s+%d", "", 0)
		when = strings.Split(when, "..")[0] + "+3" // every third
	}
	return []string{"-e", "trace=" + c.name, "-e", fmt.Sprintf("inject=%s:error=%s:when=%s", c.name, e, when)}, fmt.Sprintf("%s #%s fails with %s", c.name, when, e)
}

func TestInject(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		tr := genTree(t)
		src, dst := filepath.Join(d, "src"), filepath.Join(d, "idx")
		hx.Must(os.Mkdir(src, 0o755))
		hx.WriteTree(src, tr)
		lits := []string{"foo", "quux", "a"}
		files, hits := want(tr, lits)
		for n := rapid.IntRange(2, 5).Draw(t, "builds"); n > 0; n-- {
			args, what := inject(t)
			hx.Must(os.RemoveAll(dst))
			b, _ := json.Marshal(job{Kind: "build", Src: src, Dst: dst})
			e := hx.Child{Strace: args, Env: []string{"C12_CHILD=1", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1"}, Stdin: b}.Run()
			hit := "not reached"
			where := ""
			if m := failed.FindString(e.Trace); m != "" {
				hit = "reached"
				where = m
			}
			hx.Class("injection "+hit, 1)
			fail := func(msg string) {
				t.Fatalf("%s (%s): %s\n%s\n%s\ntree: %v", what, hit, msg, hx.Tail(where, 300), hx.Tail(e.Out+e.Err, 1500), tr)
			}
			outcome := ""
			_, serr := os.Stat(dst)
			switch {
			case e.Hang:
				// the runtime of the process may hang when its own calls fail; nothing was reported
				outcome = "the process hangs"
			case strings.Contains(e.Out, "BUILT"):
				outcome = "built"
				b, _ := json.Marshal(job{Kind: "read", Dst: dst, Lits: lits})
				v := hx.Child{Env: []string{"C12_CHILD=1"}, Stdin: b}.Run()
				i := strings.Index(v.Out, "CONTENT ")
				if i < 0 {
					fail("the build reported success, but its index cannot be used: " + hx.Tail(v.Out+v.Err, 1500))
				}
				var r result
				hx.Must(json.Unmarshal([]byte(v.Out[i+8:]), &r))
				if r.Err != "" {
					fail("the build reported success, but: " + r.Err)
				}
				if !hx.Same(r.Files, files) {
					fail(fmt.Sprintf("the build reported success, but the index holds %s\nwant %s", short(r.Files), short(files)))
				}
				if !hx.Same(r.Hits, hits) {
					fail(fmt.Sprintf("the build reported success, but searching finds %v\nwant %v", shortHits(r.Hits), shortHits(hits)))
				}
				if len(r.Excl) != 0 {
					fail(fmt.Sprintf("the build reported success, and excluded %q", r.Excl))
				}
			case strings.Contains(e.Out, "ERROR"):
				outcome = "error reported"
				if serr == nil && !strings.Contains(what, "unlinkat") && cleanable(what) {
					fail("the failed build left its directory behind")
				}
			default:
				outcome = "process stopped"
			}
			hx.Count(fmt.Sprintf("%s: %s; tree %v", what, outcome, tr), hit == "reached", "outcome: "+outcome, "injected into "+strings.Fields(what)[0]+": "+outcome)
		}
	})
}

// cleanable tells whether the injected failure leaves removing a directory possible.
func cleanable(what string) bool {
	if !strings.Contains(what, "+") {
		// a single failure might hit the removal only when the build failed before
		return strings.HasPrefix(what, "write") || strings.HasPrefix(what, "mkdirat") || strings.HasPrefix(what, "read ") || strings.HasPrefix(what, "copy_file_range")
	}
	return strings.HasPrefix(what, "write") || strings.HasPrefix(what, "mkdirat")
}

func short(m map[string]string) string {
	var ps []string
	for p, d := range m {
		ps = append(ps, fmt.Sprintf("%q(%d bytes)", p, len(d)))
	}
	sort.Strings(ps)
	return strings.Join(ps, " ")
}

func shortHits(m map[string]map[string]string) string {
	var ps []string
	for q, f := range m {
		ps = append(ps, fmt.Sprintf("%q: %s", q, short(f)))
	}
	sort.Strings(ps)
	return strings.Join(ps, "\n")
}

// TestUnreadable starts several repositories as an unprivileged user, some of
// which contain something that user cannot read.
func TestUnreadable(t *testing.T) {
	if os.Getuid() != 0 {
		hx.Env("needs root to create files another user cannot read")
	}
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		hx.Must(os.Chown(db, nobody, nobody))
		n := rapid.IntRange(1, 4).Draw(t, "repos")
		lits := []string{"foo", "quux"}
		repos := map[string]string{}
		trees := map[string]hx.Tree{}
		broken := map[string]string{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("repo%d", i)
			dir := filepath.Join(d, "src-"+name)
			hx.Must(os.Mkdir(dir, 0o755))
			tr := genTree(t)
			tr["zz/last"] = "last foo\n"
			hx.WriteTree(dir, tr)
			repos[name], trees[name] = dir, tr
			if rapid.IntRange(0, 1).Draw(t, "broken") == 0 {
				continue
			}
			p := rapid.SampledFrom(tr.Paths()).Draw(t, "victim")
			mode := os.FileMode(0)
			kind := rapid.IntRange(0, 5).Draw(t, "kind")
			switch {
			case kind == 0:
				p = "."
			case kind < 3:
				p = filepath.Dir(p)
				mode = rapid.SampledFrom([]os.FileMode{0, 0o444, 0o111}).Draw(t, "mode")
			}
			if mode == 0o444 && dirEmpty(tr, p) {
				mode = 0
			}
			hx.Must(os.Chmod(filepath.Join(dir, p), mode))
			broken[name] = fmt.Sprintf("%q has mode %o", p, mode)
		}
		b, _ := json.Marshal(job{Kind: "start", Repos: repos, Db: db, Lits: lits})
		e := hx.Child{Env: []string{"C12_CHILD=1", "TMPDIR=" + db}, Stdin: b, Uid: nobody, Dir: "/"}.Run()
		fail := func(msg string) {
			t.Fatalf("unreadable: %v: %s\n%s\ntrees: %v", broken, msg, hx.Tail(e.Out+e.Err, 2000), trees)
		}
		i := strings.Index(e.Out, "STARTED ")
		if e.Hang {
			fail("HX-HANG startup does not finish")
		}
		if i < 0 {
			fail("startup fails as a whole")
		}
		var r struct {
			Bad  map[string]string
			Good map[string]result
			Idx  int
		}
		hx.Must(json.Unmarshal([]byte(e.Out[i+8:]), &r))
		for name, tr := range trees {
			if broken[name] != "" {
				if g, has := r.Good[name]; has {
					fail(fmt.Sprintf("repository %s was started without what it cannot read, holding %s", name, short(g.Files)))
				}
				if r.Bad[name] == "" {
					fail("no error is reported for " + name)
				}
				continue
			}
			g, has := r.Good[name]
			if !has {
				fail("repository " + name + " is not served: " + r.Bad[name])
			}
			files, hits := want(tr, lits)
			if g.Err != "" || !hx.Same(g.Files, files) || !hx.Same(g.Hits, hits) {
				fail(fmt.Sprintf("repository %s: %s %s\nwant %s", name, g.Err, short(g.Files), short(files)))
			}
		}
		if r.Idx != n-len(broken) {
			fail(fmt.Sprintf("%d index directories for %d working repositories", r.Idx, n-len(broken)))
		}
		hx.Count(fmt.Sprintf("%d repositories, unreadable: %v", n, broken), len(broken) > 0, fmt.Sprintf("%d of %d broken", len(broken), n))
	})
}

func dirEmpty(tr hx.Tree, p string) bool {
	for q := range tr {
		if p == "." || strings.HasPrefix(q, p+"/") {
			return false
		}
	}
	return true
}
