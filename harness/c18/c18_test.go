// C18: the git driver's working copy is exactly the tip of the configured ref.
// Generated histories of a real remote repository (written with fast-import)
// are pulled with the driver and, in TestSearch, indexed and searched.
package c18

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var branches = []string{"master", "main", "dev", "feature/x", "feature", "dev/a/b", "é", "a+b", "v1.0", "100%", "x{y", "-x-"[1:]}

type gitConf struct {
	Ref    string
	Detect bool
}

func (c gitConf) bytes() []byte {
	m := map[string]interface{}{}
	if c.Ref != "" {
		m["ref"] = c.Ref
	}
	if c.Detect {
		m["detect-ref"] = true
	}
	if len(m) == 0 {
		return nil
	}
	b, _ := json.Marshal(m)
	return b
}

// target is the branch that is to be checked out.
func (c gitConf) target(r *hx.GitRemote) string {
	if c.Ref != "" {
		return c.Ref
	}
	if c.Detect && r.Refs[r.Head] != nil {
		return r.Head
	}
	return "master"
}

func genConf(t *rapid.T) gitConf {
	switch rapid.IntRange(0, 4).Draw(t, "conf") {
	case 0:
		return gitConf{}
	case 1, 2:
		return gitConf{Detect: true}
	}
	return gitConf{Ref: rapid.SampledFrom(branches).Draw(t, "ref"), Detect: rapid.Bool().Draw(t, "detect")}
}

func clash(r *hx.GitRemote, b string) bool {
	for o := range r.Refs {
		if strings.HasPrefix(o, b+"/") || strings.HasPrefix(b, o+"/") {
			return true
		}
	}
	return false
}

func genTree(t *rapid.T) hx.Tree {
	tr := hx.TreeGen(6, 5).Draw(t, "tree")
	for i := rapid.IntRange(0, 2).Draw(t, "special"); i > 0; i-- {
		p := rapid.SampledFrom([]string{
			"origin/master", "origin/main", "master", "main", "HEAD", "feature/x", "FETCH_HEAD",
			"refs/remotes/origin/master", "remotes/origin/master", "--", "-x", ".gitignore", "dir/.gitignore", ".github/x",
			"nl\nname", "tab\tname", "sub/link", "link", "bin\\slash",
		}).Draw(t, "name")
		d := "special " + p + "\n"
		if strings.HasSuffix(p, "ignore") {
			d = rapid.SampledFrom([]string{"*\n", "foo*\n", "/a\n"}).Draw(t, "ignore")
		}
		if strings.HasSuffix(p, "link") {
			d = hx.LinkMark + rapid.SampledFrom([]string{"a", "..", "nowhere", "/etc/passwd"}).Draw(t, "to")
		}
		tr.AddPath(p, d)
	}
	return tr
}

func TestPull(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		head := rapid.SampledFrom(branches).Draw(t, "head")
		r := hx.NewGitRemote(filepath.Join(d, "remote.git"), head)
		dir := filepath.Join(d, "vcs-0123")
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		say("HEAD=%s", head)
		cf := genConf(t)
		wd, err := vcs.New("git", cf.bytes())
		if err != nil {
			fail("vcs.New(%s): %v", cf.bytes(), err)
		}
		say("config %s", cf.bytes())
		var all []*hx.GitCommit
		commit := func(b string, parent bool) {
			if clash(r, b) {
				return
			}
			c := r.Commit(b, genTree(t), parent)
			all = append(all, c)
			say("commit %s on %s(on top: %v)", c.Tree, b, parent)
		}
		commit(head, true)
		for i := rapid.IntRange(0, 2).Draw(t, "more"); i > 0; i-- {
			commit(rapid.SampledFrom(branches).Draw(t, "b"), rapid.Bool().Draw(t, "parent"))
		}
		pulls, changes, dirty := 0, 0, 0
		last := "" // commit at the last pull
		touched := false
		pull := func() {
			want := r.Refs[cf.target(r)]
			if want == nil {
				return
			}
			var rev string
			hx.Bounded(t, "PullOrClone", func() { rev, err = wd.PullOrClone(dir, r.Url()) })
			if err != nil {
				fail("pull of %s: %v", cf.target(r), err)
			}
			say("pull %s", cf.target(r))
			if rev != want.Id {
				at := "no commit of this history"
				for _, c := range all {
					if c.Id == rev {
						at = "the commit with " + c.Tree.String()
					}
				}
				fail("the pull of branch %q reports revision %q (%s), the tip is %s", cf.target(r), rev, at, want.Id)
			}
			if got := hx.ReadWork(dir); !hx.Same(got, want.Tree) {
				fail("after the pull of branch %q the working copy differs from the tip: %s", cf.target(r), hx.DiffTrees(want.Tree, got))
			}
			if h, err := wd.HeadRev(dir); err != nil || h != want.Id {
				fail("HeadRev says %q, %v; the tip is %s", h, err, want.Id)
			}
			pulls++
			if last != want.Id || touched {
				changes++
			}
			last, touched = want.Id, false
		}
		pull()
		for k := rapid.IntRange(2, 8).Draw(t, "steps"); k > 0; k-- {
			tb := cf.target(r)
			switch rapid.IntRange(0, 10).Draw(t, "op") {
			case 0, 1, 2: // progress of the branch
				commit(tb, true)
				pull()
			case 3: // rewritten history
				commit(tb, false)
				pull()
			case 4: // another branch
				b := rapid.SampledFrom(branches).Draw(t, "b")
				if b != tb {
					commit(b, rapid.Bool().Draw(t, "parent"))
					pull()
				}
			case 5: // back to an old commit
				if len(all) > 0 && r.Refs[tb] != nil {
					c := rapid.SampledFrom(all).Draw(t, "old")
					r.Point(tb, c)
					say("%s is set to %s", tb, c.Tree)
					pull()
				}
			case 6: // the branch is renamed, and HEAD with it
				b := rapid.SampledFrom(branches).Draw(t, "b")
				c := r.Refs[tb]
				if b == tb || c == nil || r.Refs[b] != nil {
					continue
				}
				r.Point(tb, nil)
				if clash(r, b) {
					r.Point(tb, c)
					continue
				}
				r.Point(b, c)
				say("%s is renamed to %s", tb, b)
				if r.Head == tb || rapid.Bool().Draw(t, "head") {
					r.SetHead(b)
					say("HEAD=%s", b)
				}
				if cf.Ref == tb {
					cf.Ref = b
					wd, err = vcs.New("git", cf.bytes())
					if err != nil {
						fail("vcs.New(%s): %v", cf.bytes(), err)
					}
				}
				pull()
			case 7: // HEAD moves to another branch
				b := rapid.SampledFrom(branches).Draw(t, "b")
				r.SetHead(b)
				say("HEAD=%s", b)
				pull()
			case 8: // another configuration
				cf = genConf(t)
				wd, err = vcs.New("git", cf.bytes())
				if err != nil {
					fail("vcs.New(%s): %v", cf.bytes(), err)
				}
				say("config %s", cf.bytes())
				pull()
			case 9: // tags, some with names that look like something else
				if len(all) == 0 {
					continue
				}
				name := rapid.SampledFrom([]string{"origin/master", "origin/main", "origin/dev", "release", "heads/master", "remotes/origin/master"}).Draw(t, "tag")
				c := rapid.SampledFrom(all).Draw(t, "commit")
				args := []string{"-c", "user.name=a", "-c", "user.email=a@b", "tag", "-f"}
				if rapid.Bool().Draw(t, "annotated") {
					args = append(args, "-a", "-m", "m")
				}
				hx.Git(r.Dir, append(args, name, c.Id)...)
				say("tag %s at %s", name, c.Tree)
				if rapid.Bool().Draw(t, "fresh") {
					hx.Must(os.RemoveAll(dir))
					say("fresh clone")
				}
				pull()
			case 10: // the working copy is changed
				if last == "" {
					continue
				}
				got := hx.ReadWork(dir)
				dirty++
				touched = true
				switch rapid.IntRange(0, 7).Draw(t, "stray") {
				case 0: // something that is not of the repository
					p := rapid.SampledFrom([]string{"stray", "a", "bar", "foo.go", "dir/stray", ".stray", "x.lock", "sub/deep/stray", "ignored.o"}).Draw(t, "stray name")
					full := filepath.Join(dir, p)
					if _, err := os.Lstat(full); err == nil || !got.Clone().AddPath(p, "") {
						continue
					}
					if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
						continue
					}
					how := rapid.SampledFrom([]string{"file", "file", "link", "repository"}).Draw(t, "stray kind")
					switch how {
					case "file":
						hx.Must(os.WriteFile(full, []byte("stray"), 0o444))
					case "link":
						hx.Must(os.Symlink("/etc", full))
					default:
						hx.Git("/", "init", "-q", full)
						hx.Must(os.WriteFile(filepath.Join(full, "f"), []byte("stray"), 0o644))
					}
					say("a stray %s %q", how, p)
					pull()
					continue
				case 1: // what a git that was killed leaves
					p := rapid.SampledFrom([]string{"index", "HEAD", "shallow", "config", "packed-refs", "refs/heads/" + r.Head, "refs/hound/" + strings.ReplaceAll(cf.target(r), "/", "%2F"), "refs/remotes/origin/" + r.Head}).Draw(t, "lock")
					full := filepath.Join(dir, ".git", p+".lock")
					if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
						continue
					}
					hx.Must(os.WriteFile(full, nil, 0o644))
					say("the lock %q is left", p)
					pull()
					continue
				}
				if len(got) == 0 {
					continue
				}
				p := rapid.SampledFrom(got.Paths()).Draw(t, "victim")
				full := filepath.Join(dir, p)
				switch how := rapid.IntRange(0, 4).Draw(t, "how"); how {
				case 0:
					hx.Must(os.Remove(full))
					say("%q is deleted locally", p)
				case 1:
					hx.Must(os.Remove(full))
					hx.Must(os.Mkdir(full, 0o755))
					say("%q is replaced by an empty directory", p)
				case 2:
					hx.Must(os.Remove(full))
					hx.Must(os.Symlink("/etc/hosts", full))
					say("%q is replaced by a link", p)
				default:
					hx.Must(os.Remove(full))
					hx.Must(os.WriteFile(full, []byte("local change"), 0o644))
					if how == 4 {
						hx.Git(dir, "--literal-pathspecs", "add", "-f", "--", p)
					}
					say("%q is modified locally (staged: %v)", p, how == 4)
				}
				pull()
			}
		}
		hx.Count(strings.Join(hist, "; "), changes > 1)
		hx.Class("pulls", int64(pulls))
		hx.Class("local changes", int64(dirty))
	})
}

// TestSearch follows one or two branches of a remote through the searcher.
func TestSearch(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		r := hx.NewGitRemote(filepath.Join(d, "remote.git"), "main")
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		no := 0
		commit := func(b string, parent bool) *hx.GitCommit {
			no++
			tr := hx.TreeGen(5, 4).Draw(t, "tree")
			delete(tr, "id")
			tr["id"] = fmt.Sprintf("commit %d of %s\n", no, b)
			c := r.Commit(b, tr, parent)
			say("commit %s on %s(%v)", tr, b, parent)
			return c
		}
		commit("main", true)
		commit("dev", true)
		cfg := &config.Config{DbPath: db, MaxConcurrentIndexers: 2, Repos: map[string]*config.Repo{}}
		branch := map[string]string{}
		for i := rapid.IntRange(1, 2).Draw(t, "repos"); i > 0; i-- {
			po, pu := false, true
			name := fmt.Sprintf("r%d", i)
			branch[name] = []string{"", "main", "dev"}[i]
			m := config.SecretMessage(gitConf{Ref: branch[name]}.bytes())
			if i == 1 && rapid.Bool().Draw(t, "detect") {
				m = config.SecretMessage(gitConf{Detect: true}.bytes())
			}
			cfg.Repos[name] = &config.Repo{Url: r.Url(), Vcs: "git", VcsConfigMessage: &m, MsBetweenPolls: 10000, EnablePollUpdates: &po, EnablePushUpdates: &pu}
		}
		var ss map[string]*searcher.Searcher
		check := func(name string, wait bool) {
			want := r.Refs[branch[name]]
			files := map[string]string{}
			for p, data := range want.Tree {
				if ls := hx.Lines(data); len(ls) > 0 {
					files[p] = strings.Join(ls, "\n") + "\n"
				}
			}
			hx.Eventually(t, fmt.Sprintf("%s serves the tip of %s (history: %s)", name, branch[name], strings.Join(hist, "; ")), func() bool {
				res, err := ss[name].Search("", &index.SearchOptions{})
				if err != nil {
					fail("search: %v", err)
				}
				if res.Revision != want.Id {
					if !wait {
						fail("%s serves revision %s, the tip of %s is %s", name, res.Revision, branch[name], want.Id)
					}
					return false
				}
				got := map[string]string{}
				for _, f := range res.Matches {
					for _, m := range f.Matches {
						got[f.Filename] += m.Line + "\n"
					}
				}
				if !hx.Same(got, files) {
					fail("%s serves revision %s with other content: %s", name, res.Revision, hx.DiffTrees(files, got))
				}
				return true
			})
		}
		start := func() {
			var errs map[string]error
			var err error
			hx.Bounded(t, "MakeAll", func() { ss, errs, err = searcher.MakeAll(cfg) })
			if err != nil || len(errs) > 0 {
				fail("MakeAll: %v %v", err, errs)
			}
			for name := range cfg.Repos {
				check(name, false)
			}
		}
		stop := func() {
			for _, s := range ss {
				s.Stop()
				hx.Bounded(t, "Wait", s.Wait)
			}
			ss = nil
		}
		start()
		defer func() { stop() }()
		for k := rapid.IntRange(1, 5).Draw(t, "steps"); k > 0; k-- {
			switch rapid.IntRange(0, 4).Draw(t, "op") {
			case 0:
				stop()
				if rapid.Bool().Draw(t, "meanwhile") {
					commit("main", rapid.Bool().Draw(t, "parent"))
				}
				say("restart")
				start()
			default:
				b := rapid.SampledFrom([]string{"main", "dev"}).Draw(t, "b")
				commit(b, rapid.IntRange(0, 3).Draw(t, "rewrite") > 0)
				for name := range cfg.Repos {
					ss[name].Update()
				}
				say("push")
				for name := range cfg.Repos {
					check(name, true)
				}
			}
		}
		hx.Count(strings.Join(hist, "; "), len(cfg.Repos) > 1 || no > 3)
	})
}
