// C20: auto-generated files are flagged exactly, and only flagged.
package c20

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// rule is one line of a .gitattributes file, of a kind whose meaning is simple.
type rule struct {
	kind, arg string
	set       string // value given to linguist-generated; "-": not mentioned, "!": unspecified
	text      string
}

// matches tells whether the rule applies to the path relative to its file.
func (r rule) matches(p string) bool {
	base := p[strings.LastIndex(p, "/")+1:]
	switch r.kind {
	case "base":
		return base == r.arg
	case "ext":
		return strings.HasSuffix(base, r.arg)
	case "prefix":
		return strings.HasPrefix(base, r.arg)
	case "path":
		return p == r.arg
	case "below":
		return strings.HasPrefix(p, r.arg+"/")
	case "deep":
		return base == r.arg
	case "all":
		return true
	}
	panic(r.kind)
}

var plain = []string{"a", "b", "main.go", "foo", "foo.go", "lib", "src", "gen", "x.pb.go", "é.md", "x y"}

func quoted(p string) string {
	if strings.Contains(p, " ") {
		return `"` + p + `"`
	}
	return p
}

func genRule(t *rapid.T) rule {
	r := rule{kind: rapid.SampledFrom([]string{"base", "base", "ext", "prefix", "path", "path", "below", "deep", "all"}).Draw(t, "kind")}
	var pat string
	name := func() string { return rapid.SampledFrom(plain).Draw(t, "name") }
	switch r.kind {
	case "base":
		r.arg = name()
		pat = r.arg
	case "ext":
		r.arg = rapid.SampledFrom([]string{".go", ".md", ".pb.go", "o"}).Draw(t, "ext")
		pat = "*" + r.arg
	case "prefix":
		r.arg = rapid.SampledFrom([]string{"f", "foo", "x"}).Draw(t, "pre")
		pat = r.arg + "*"
	case "path":
		if rapid.Bool().Draw(t, "rooted") {
			r.arg = name()
			pat = "/" + r.arg
		} else {
			r.arg = name() + "/" + name()
			pat = r.arg
		}
	case "below":
		r.arg = name()
		pat = r.arg + "/**"
	case "deep":
		r.arg = name()
		pat = "**/" + r.arg
	case "all":
		pat = "*"
	}
	var attr string
	switch rapid.IntRange(0, 9).Draw(t, "value") {
	case 0, 1, 2, 3:
		attr, r.set = "linguist-generated=true", "true"
	case 4:
		attr, r.set = "linguist-generated=false", "false"
	case 5:
		attr, r.set = "-linguist-generated", "unset"
	case 6:
		attr, r.set = "!linguist-generated", "!"
	case 7:
		attr, r.set = "linguist-vendored=true", "-"
	case 8:
		attr, r.set = "gen", "true" // the macro
	case 9:
		attr, r.set = rapid.SampledFrom([]string{"linguist-generated=TRUE", "linguist-generated=truely", "linguist-generated=1"}).Draw(t, "odd"), "odd"
	}
	if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
		attr = "linguist-language=Go " + attr + " -diff"
	}
	r.text = quoted(pat) + " " + attr + "\n"
	if rapid.IntRange(0, 6).Draw(t, "comment") == 0 {
		r.text = "# " + quoted(pat) + " linguist-generated=true\n\n" + r.text
	}
	return r
}

// attrs maps a directory ("" for the root) to its rules.
type attrs map[string][]rule

func genAttrs(t *rapid.T, tr hx.Tree) attrs {
	as := attrs{}
	dirs := map[string]bool{"": true}
	for p := range tr {
		for i := range p {
			if p[i] == '/' {
				dirs[p[:i]] = true
			}
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		if d != "" && rapid.IntRange(0, 2).Draw(t, "here") > 0 {
			continue
		}
		for i := rapid.IntRange(0, 4).Draw(t, "rules"); i > 0; i-- {
			as[d] = append(as[d], genRule(t))
		}
	}
	return as
}

// write puts the attribute files into the tree.
func (as attrs) write(tr hx.Tree) {
	for d, rs := range as {
		var b strings.Builder
		if d == "" {
			b.WriteString("[attr]gen linguist-generated=true\n")
		}
		for _, r := range rs {
			b.WriteString(r.text)
		}
		p := ".gitattributes"
		if d != "" {
			p = d + "/" + p
		}
		tr[p] = b.String()
	}
	if _, ok := as[""]; !ok {
		tr[".gitattributes"] = "[attr]gen linguist-generated=true\n"
	}
}

// generated is what the attributes say about a path.
func (as attrs) generated(p string) bool {
	for d := p; ; {
		if i := strings.LastIndex(d, "/"); i >= 0 {
			d = d[:i]
		} else {
			d = ""
		}
		rs := as[d]
		rel := strings.TrimPrefix(p, d+"/")
		if d == "" {
			rel = p
		}
		for i := len(rs) - 1; i >= 0; i-- {
			if rs[i].set != "-" && rs[i].matches(rel) {
				return rs[i].set == "true"
			}
		}
		if d == "" {
			return false
		}
	}
}

func genTree(t *rapid.T) hx.Tree {
	tr := hx.Tree{}
	for i := rapid.IntRange(0, 10).Draw(t, "files"); i > 0; i-- {
		segs := rapid.SliceOfN(rapid.SampledFrom(plain), 1, 3).Draw(t, "path")
		tr.AddPath(strings.Join(segs, "/"), rapid.SampledFrom([]string{"foo\n", "foo\nbar foo\n", "bar\n", "x\nfoo"}).Draw(t, "text"))
	}
	for i := rapid.IntRange(0, 2).Draw(t, "odd"); i > 0; i-- {
		tr.AddPath(rapid.SampledFrom([]string{"nl\nx.go", "tab\t.md", "q\".go", "日本.go", "back\\x.go", ": x"}).Draw(t, "odd"), "foo\n")
	}
	return tr
}

func wantSet(tr hx.Tree, as attrs) map[string]bool {
	m := map[string]bool{}
	for p := range tr {
		if as.generated(p) {
			m[p] = true
		}
	}
	return m
}

func list(m map[string]bool) string {
	var ps []string
	for p := range m {
		ps = append(ps, p)
	}
	return hx.FileSet(ps)
}

func TestAttributes(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		r := hx.NewGitRemote(filepath.Join(d, "remote.git"), "master")
		dir := filepath.Join(d, "vcs-0")
		wd, err := vcs.New("git", nil)
		hx.Must(err)
		var hist []string
		some, flips := false, 0
		var prev map[string]bool
		for k := rapid.IntRange(1, 3).Draw(t, "revisions"); k > 0; k-- {
			tr := genTree(t)
			if rapid.IntRange(0, 12).Draw(t, "big") == 0 {
				long := strings.Repeat("n", 60)
				for i := 0; i < 1500; i++ { // more than a pipe holds
					tr.AddPath(fmt.Sprintf("gen/%s%04d.go", long, i), "x\n")
				}
			}
			as := genAttrs(t, tr)
			as.write(tr)
			r.Commit("master", tr, true)
			rules := ""
			for _, p := range tr.Paths() {
				if strings.HasSuffix(p, ".gitattributes") {
					rules += fmt.Sprintf("%s: %q ", p, tr[p])
				}
			}
			ps := tr.Paths()
			hist = append(hist, fmt.Sprintf("files %s %s", hx.FileSet(ps[:min(len(ps), 20)]), rules))
			if _, err := wd.PullOrClone(dir, r.Url()); err != nil {
				t.Fatalf("pull: %v", err)
			}
			var out []string
			hx.Bounded(t, "AutoGeneratedFiles", func() { out = wd.AutoGeneratedFiles(dir) })
			got := map[string]bool{}
			for _, p := range out {
				if got[p] {
					t.Fatalf("%q is listed twice\nhistory: %s", p, strings.Join(hist, "; "))
				}
				got[p] = true
			}
			want := wantSet(tr, as)
			if !hx.Same(got, want) {
				t.Fatalf("generated files: %s\nhistory: %s", hx.SetDiff(got, want), strings.Join(hist, "; "))
			}
			some = some || len(want) > 0 && len(want) < len(tr)
			if prev != nil && !hx.Same(prev, want) {
				flips++
			}
			prev = want
		}
		hx.Count(strings.Join(hist, "; "), some)
		hx.Class("changed at an update", int64(flips))
	})
}

// judge compares one answer with the flags and the content wanted.
func judge(res *index.SearchResponse, tr hx.Tree, want map[string]bool) error {
	seen := map[string]bool{}
	for _, f := range res.Matches {
		seen[f.Filename] = true
		if f.AutoGenerated != want[f.Filename] {
			return fmt.Errorf("%q is flagged %v, want %v", f.Filename, f.AutoGenerated, want[f.Filename])
		}
		n := 0
		for _, l := range hx.Lines(tr[f.Filename]) {
			if strings.Contains(l, "foo") {
				n++
			}
		}
		if n != len(f.Matches) {
			return fmt.Errorf("%q has %d matches, want %d", f.Filename, len(f.Matches), n)
		}
	}
	total := 0
	for p, d := range tr {
		if strings.Contains(d, "foo") {
			total++
			if !seen[p] {
				return fmt.Errorf("%q is missing", p)
			}
		}
	}
	if res.FilesWithMatch != total {
		return fmt.Errorf("%d files with matches, want %d", res.FilesWithMatch, total)
	}
	return nil
}

// TestFlags follows the flags of a repository through updates and restarts.
func TestFlags(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		git := rapid.IntRange(0, 2).Draw(t, "git") == 0
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		var remote *hx.GitRemote
		var fake *hx.Remote
		repo := hx.FakeRepo("fake://c20/r", false, true, 5)
		if git {
			remote = hx.NewGitRemote(filepath.Join(d, "remote.git"), "master")
			repo.Url, repo.Vcs = remote.Url(), "git"
		} else {
			fake = hx.NewRemote(repo.Url, "", nil)
		}
		cfg := &config.Config{DbPath: db, MaxConcurrentIndexers: 1, Repos: map[string]*config.Repo{"r": repo}}
		var tr hx.Tree
		var marked map[string]bool // by the repository itself
		no := 0
		publish := func() {
			no++
			tr = genTree(t)
			tr["id"] = fmt.Sprintf("revision %d\n", no)
			if git {
				as := genAttrs(t, tr)
				as.write(tr)
				marked = wantSet(tr, as)
				remote.Commit("master", tr, rapid.Bool().Draw(t, "parent"))
			} else {
				marked = map[string]bool{}
				var auto []string
				for _, p := range tr.Paths() {
					if rapid.Bool().Draw(t, "auto") {
						marked[p] = true
						auto = append(auto, p)
					}
				}
				fake.SetAuto(auto)
				fake.Set(fmt.Sprint(no), tr)
			}
			say("publish %s marked %s", hx.FileSet(tr.Paths()), list(marked))
		}
		option := func() {
			repo.AutoGeneratedFiles = nil
			if rapid.Bool().Draw(t, "option") {
				ps := append(tr.Paths(), "no/such/file", "a")
				repo.AutoGeneratedFiles = rapid.SliceOfN(rapid.SampledFrom(ps), 0, 4).Draw(t, "listed")
				say("auto-generated-files %q", repo.AutoGeneratedFiles)
			}
		}
		want := func() map[string]bool {
			if len(repo.AutoGeneratedFiles) == 0 {
				return marked
			}
			m := map[string]bool{}
			for _, p := range repo.AutoGeneratedFiles {
				m[p] = true
			}
			return m
		}
		var s *searcher.Searcher
		start := func() {
			ss, errs, err := searcher.MakeAll(cfg)
			if err != nil || len(errs) > 0 {
				fail("MakeAll: %v %v", err, errs)
			}
			s = ss["r"]
		}
		stop := func() {
			if s != nil {
				s.Stop()
				hx.Bounded(t, "Wait", s.Wait)
			}
			s = nil
		}
		defer func() { stop() }()
		search := func(what string) {
			res, err := s.Search("foo", &index.SearchOptions{})
			if err != nil {
				fail("search: %v", err)
			}
			if err := judge(res, tr, want()); err != nil {
				fail("%s: %v", what, err)
			}
			// pages and filters carry the same flags
			for _, f := range res.Matches {
				p, err := s.Search("foo", &index.SearchOptions{FileRegexp: "^" + hx.QuoteRe(f.Filename) + "$", IgnoreCase: true})
				if err != nil || len(p.Matches) != 1 || p.Matches[0].AutoGenerated != f.AutoGenerated {
					if !strings.Contains(f.Filename, "\n") {
						fail("%s: %q is flagged %v, but not so when it is searched alone (%v)", what, f.Filename, f.AutoGenerated, err)
					}
				}
			}
		}
		publish()
		option()
		start()
		search("after the first start")
		for k := rapid.IntRange(1, 4).Draw(t, "steps"); k > 0; k-- {
			if rapid.IntRange(0, 2).Draw(t, "op") == 0 {
				stop()
				if rapid.Bool().Draw(t, "meanwhile") {
					publish()
				}
				option()
				say("restart")
				start()
				search("after a restart")
				continue
			}
			publish()
			s.Update()
			say("push")
			hx.Eventually(t, "the update (history: "+strings.Join(hist, "; ")+")", func() bool {
				res, err := s.Search("^revision [0-9]+$", &index.SearchOptions{FileRegexp: "^id$"})
				if err != nil {
					fail("search: %v", err)
				}
				return len(res.Matches) == 1 && res.Matches[0].Matches[0].Line == fmt.Sprintf("revision %d", no)
			})
			search("after an update")
		}
		w := want()
		hx.Count(strings.Join(hist, "; "), len(w) > 0 && len(w) < len(tr))
	})
}
