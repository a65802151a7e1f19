// C21: the Mercurial, Subversion and Bazaar drivers, driven over stand-ins for
// the tools: a small version control system that the test binary itself plays.
package c21

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var drivers = []string{"hg", "mercurial", "svn", "subversion", "bzr"}
var metas = map[string]string{"hg": ".hg", "mercurial": ".hg", "svn": ".svn", "subversion": ".svn", "bzr": ".bzr"}

var words = []string{"a", "x y", "$HOME", "$(touch pwned)", "`touch pwned`", "'", "\"", "\\", ";touch pwned", "&", "|", "*", "?", "#", "%20", "@", "~", "é", "日本", "\n", "\t", " ", "=", "--", "{node}", "<", ">", "!", "[a]", "\xff"}

func odd(t *rapid.T, label string, max int) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), 0, max).Draw(t, label), "")
}

func genUrl(t *rapid.T) string {
	return rapid.SampledFrom([]string{"https://h/", "ssh://u@h/", "file:///", "svn+ssh://h/", "/srv/", "lp:", "h:", "C:\\", " "}).Draw(t, "scheme") + odd(t, "url", 4)
}

// A directory name that no tool could take for an option.
func genName(t *rapid.T, label string) string {
	s := strings.ReplaceAll(odd(t, label, 3), "/", "")
	return rapid.SampledFrom([]string{"vcs-", "d", ".x", "$", "%"}).Draw(t, label+"0") + s
}

func genRev(t *rapid.T) string {
	return rapid.SampledFrom([]string{
		"1", "42", "4123:4168MS", "8f5c0b6d9d7e4a3c2b1a0f9e8d7c6b5a49382716", "a b", "é", "-", "1.2.3", strings.Repeat("f", 5000),
	}).Draw(t, "rev")
}

type cred struct{ User, Pass string }

func genCred(t *rapid.T, label string) cred {
	return cred{rapid.SampledFrom([]string{"u", "-u", "--password", "a b"}).Draw(t, label+"u") + odd(t, label+"user", 2),
		rapid.SampledFrom([]string{"", "p", "-p", "--username"}).Draw(t, label+"p") + odd(t, label+"pass", 3)}
}

func valid(c cred) bool { // can be written in JSON
	b, _ := json.Marshal(c)
	var d cred
	return json.Unmarshal(b, &d) == nil && c == d
}

func (c cred) conf() []byte {
	b, err := json.Marshal(map[string]string{"username": c.User, "password": c.Pass})
	hx.Must(err)
	return b
}

func entries(dir string) []string {
	es, err := os.ReadDir(dir)
	hx.Must(err)
	var ns []string
	for _, e := range es {
		ns = append(ns, e.Name())
	}
	sort.Strings(ns)
	return ns
}

func TestDriver(t *testing.T) {
	start, err := os.Getwd()
	hx.Must(err)
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		st := filepath.Join(d, "stubs")
		hx.Must(os.Mkdir(st, 0o755))
		set, calls, remove := hx.Stubs(st)
		defer remove()
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			cs := calls()
			t.Fatalf("%s\nhistory: %s\ninvocations: %.3000q", fmt.Sprintf(f, a...), strings.Join(hist, "; "), cs[max(0, len(cs)-3):])
		}
		drv := rapid.SampledFrom(drivers).Draw(t, "driver")
		isSvn := strings.HasPrefix(drv, "s")
		par := filepath.Join(d, "work", genName(t, "par"))
		hx.Must(os.MkdirAll(par, 0o755))
		base := genName(t, "base")
		dir := filepath.Join(par, base)
		if rapid.IntRange(0, 2).Draw(t, "relative") == 0 {
			to := rapid.SampledFrom([]string{par, filepath.Join(d, "work"), d}).Draw(t, "cwd")
			hx.Must(os.Chdir(to))
			defer func() { hx.Must(os.Chdir(start)) }()
			dir, err = filepath.Rel(to, dir)
			hx.Must(err)
		}
		full := filepath.Join(par, base)
		url := genUrl(t)
		state := hx.StubState{Remotes: map[string]*hx.StubRemote{}, Fail: map[string]string{}}
		r := &hx.StubRemote{Rev: genRev(t), Tree: hx.TreeGen(4, 3).Draw(t, "tree")}
		state.Remotes[url] = r
		state.Remotes["decoy"] = &hx.StubRemote{Rev: "decoy", Tree: hx.Tree{"decoy": "x\n"}}
		var cfg []byte
		if rapid.Bool().Draw(t, "auth") {
			c := genCred(t, "c")
			if !valid(c) {
				c = cred{"u\"ser", "p a"}
			}
			r.User, r.Pass = c.User, c.Pass
			cfg = c.conf()
		}
		say("%s in %q with %s url %q credentials %q", drv, dir, cfg, url, r.User+":"+r.Pass)
		wd, err := vcs.New(drv, cfg)
		if err != nil {
			fail("vcs.New: %v", err)
		}
		refused := false // the configured credentials are wrong
		before := entries(filepath.Dir(par))
		good, bad, changed := 0, 0, 0
		pulled := false // a working copy is there
		var last hx.StubRemote
		for k := rapid.IntRange(1, 6).Draw(t, "steps"); k > 0; k-- {
			if rapid.IntRange(0, 1).Draw(t, "commit") == 0 {
				r.Rev, r.Tree = genRev(t), hx.TreeGen(4, 3).Draw(t, "tree")
				say("commit %.30q %s", r.Rev, r.Tree)
			}
			ws := []string{"", "\n", " ", "\t\n", "\r\n", "  \n\n"}
			state.Pad = [2]string{rapid.SampledFrom(ws).Draw(t, "pad0"), rapid.SampledFrom(ws).Draw(t, "pad1")}
			state.Noise = rapid.SampledFrom([]int{0, 0, 100, 300000}).Draw(t, "noise")
			state.Fail = map[string]string{}
			gone := ""
			switch rapid.IntRange(0, 5).Draw(t, "trouble") {
			case 0, 1:
				for _, op := range []string{"clone", "pull", "rev"} {
					if rapid.IntRange(0, 1).Draw(t, "fail "+op) == 0 {
						state.Fail[op] = rapid.SampledFrom([]string{"", "late "}).Draw(t, "when") + rapid.SampledFrom([]string{"exit", "signal", "silent", "big", "mute exit", "mute silent"}).Draw(t, "how")
					}
				}
			case 2:
				gone = map[string]string{"h": "hg", "m": "hg", "s": rapid.SampledFrom([]string{"svn", "svnversion"}).Draw(t, "tool"), "b": "bzr"}[drv[:1]]
				hx.StubLink(st, gone, false)
			}
			set(state)
			op := rapid.IntRange(0, 5).Draw(t, "op")
			var rev string
			var want bool // success
			_, serr := os.Stat(full)
			there := serr == nil
			if op > 0 {
				hx.Bounded(t, "PullOrClone", func() { rev, err = wd.PullOrClone(dir, url) })
				what := "clone"
				if there {
					what = "pull"
				}
				how, broken := state.Fail[what]
				lost := gone != "" && gone != "svnversion"
				want = !broken && !lost && (pulled || !there)
				if !lost && (!broken || strings.HasPrefix(how, "late ")) {
					if !there || pulled {
						if pulled && last.Rev != r.Rev {
							changed++
						}
						pulled = true
						last = *r
					}
				}
			} else if there {
				hx.Bounded(t, "HeadRev", func() { rev, err = wd.HeadRev(dir) })
				want = pulled && gone == ""
			} else {
				hx.Bounded(t, "HeadRev", func() { rev, err = wd.HeadRev(dir) })
				want = false
			}
			if _, broken := state.Fail["rev"]; broken || gone != "" {
				want = false
			}
			say("op %d, failing %v, missing %q, pad %q: %.40q, %v", op, state.Fail, gone, state.Pad, rev, err)
			if gone != "" {
				hx.StubLink(st, gone, true)
			}
			if gone != "" && err == nil && pulled && rev == last.Rev && (op == 0 || last.Rev == r.Rev) {
				want = true // what is missing was not needed
			}
			if want {
				good++
				if err != nil {
					fail("op %d: %v", op, err)
				}
				if exp := strings.TrimSpace(last.Rev); rev != exp {
					fail("op %d: revision %.100q, want %.100q", op, rev, exp)
				}
			} else {
				bad++
				if err == nil {
					fail("op %d: no error though a tool failed (revision %.100q)", op, rev)
				}
			}
			if pulled {
				m := metas[drv]
				if fi, err := os.Stat(full); err != nil || !fi.IsDir() {
					fail("op %d: there is no working copy at the requested place: %v", op, err)
				}
				got := hx.ReadWork(full)
				for p := range got {
					if strings.HasPrefix(p, m+"/") {
						delete(got, p)
					}
				}
				if diff := hx.DiffTrees(last.Tree, got); diff != "" {
					fail("op %d: the working copy differs from the repository: %s", op, diff)
				}
			}
			for _, e := range entries(par) {
				if e != base {
					fail("op %d: %q appeared next to the working copy", op, e)
				}
			}
			if now := entries(filepath.Dir(par)); !hx.Same(now, before) {
				fail("op %d: files appeared: %q, before %q", op, now, before)
			}
			if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
				refused = false
				if isSvn && r.User != "" && rapid.Bool().Draw(t, "wrong") {
					c := cred{r.User + "x", r.Pass}
					if rapid.Bool().Draw(t, "wrong pass") {
						c = cred{r.User, r.Pass + " "}
					}
					w2, err := vcs.New(drv, c.conf())
					if err != nil {
						fail("vcs.New: %v", err)
					}
					refused = true
					state.Fail = map[string]string{}
					set(state)
					hx.Bounded(t, "PullOrClone", func() { rev, err = w2.PullOrClone(dir, url) })
					if err == nil {
						fail("no error with wrong credentials")
					}
				} else {
					wd, err = vcs.New(drv, cfg)
					if err != nil {
						fail("vcs.New: %v", err)
					}
				}
				say("new driver, refused %v", refused)
			}
		}
		hx.Count(strings.Join(hist, "; "), good > 0 && bad > 0)
		hx.Class("updates to another revision", int64(changed))
		hx.Class("failures injected", int64(bad))
	})
}

// TestSearch runs searchers over the drivers.
func TestSearch(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		st := filepath.Join(d, "stubs")
		hx.Must(os.Mkdir(st, 0o755))
		set, calls, remove := hx.Stubs(st)
		defer remove()
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		state := hx.StubState{Remotes: map[string]*hx.StubRemote{}, Fail: map[string]string{}, Pad: [2]string{"", "\n"}}
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
		fail := func(f string, a ...interface{}) {
			cs := calls()
			t.Fatalf("%s\nhistory: %s\ninvocations: %.3000q", fmt.Sprintf(f, a...), strings.Join(hist, "; "), cs[max(0, len(cs)-5):])
		}
		cfg := &config.Config{DbPath: db, MaxConcurrentIndexers: 2, Repos: map[string]*config.Repo{}}
		lives := map[string]*hx.StubRemote{}
		no := 0
		rev := func() *hx.StubRemote {
			no++
			r := &hx.StubRemote{Rev: fmt.Sprint(no), Tree: hx.TreeGen(4, 3).Draw(t, "tree")}
			r.Tree["id"] = fmt.Sprintf("revision %d\n", no)
			return r
		}
		var names []string
		for i := rapid.IntRange(1, 3).Draw(t, "repos"); i > 0; i-- {
			n := fmt.Sprint("r", i)
			drv := rapid.SampledFrom(drivers).Draw(t, "driver")
			url := genUrl(t) + n
			repo := hx.FakeRepo(url, false, true, 5)
			repo.Vcs = drv
			repo.VcsConfigMessage = nil
			r := rev()
			if rapid.Bool().Draw(t, "auth") {
				if c := genCred(t, "c"); valid(c) {
					r.User, r.Pass = c.User, c.Pass
					var sm config.SecretMessage
					hx.Must(sm.UnmarshalJSON(c.conf()))
					repo.VcsConfigMessage = &sm
				}
			}
			state.Remotes[url] = r
			lives[n] = r
			cfg.Repos[n] = repo
			names = append(names, n)
			say("%s: %s %q %s", n, drv, url, r.Tree)
		}
		broken := ""
		if rapid.IntRange(0, 2).Draw(t, "broken") == 0 {
			broken = rapid.SampledFrom(names).Draw(t, "which")
			u := cfg.Repos[broken].Url
			say("%s has no remote", broken)
			delete(state.Remotes, u)
		}
		set(state)
		ss, errs, err := searcher.MakeAll(cfg)
		if err != nil {
			fail("MakeAll: %v", err)
		}
		defer func() {
			for _, s := range ss {
				s.Stop()
			}
			for _, s := range ss {
				hx.Bounded(t, "Wait", s.Wait)
			}
		}()
		for _, n := range names {
			if n == broken {
				if errs[n] == nil || ss[n] != nil {
					fail("%s: the clone failed, but the repository is said to be fine", n)
				}
			} else if errs[n] != nil || ss[n] == nil {
				fail("%s: %v", n, errs[n])
			}
		}
		check := func(n string) {
			res, err := ss[n].Search(".*", &index.SearchOptions{})
			if err != nil {
				fail("%s: %v", n, err)
			}
			got := hx.Tree{}
			for _, f := range res.Matches {
				for _, m := range f.Matches {
					got[f.Filename] += m.Line + "\n"
				}
			}
			want := hx.Tree{}
			for p, c := range lives[n].Tree {
				if ls := hx.Lines(c); len(ls) > 0 {
					want[p] = strings.Join(ls, "\n") + "\n"
				}
			}
			if diff := hx.DiffTrees(want, got); diff != "" {
				fail("%s: search results differ from the repository: %s", n, diff)
			}
			if res.Revision != lives[n].Rev {
				fail("%s: revision %q, want %q", n, res.Revision, lives[n].Rev)
			}
		}
		for _, n := range names {
			if n != broken {
				check(n)
			}
		}
		changes := 0
		for k := rapid.IntRange(0, 3).Draw(t, "updates"); k > 0; k-- {
			n := rapid.SampledFrom(names).Draw(t, "n")
			if n == broken {
				continue
			}
			u := cfg.Repos[n].Url
			nr := rev()
			nr.User, nr.Pass = lives[n].User, lives[n].Pass
			state.Remotes[u] = nr
			how := rapid.IntRange(0, 2).Draw(t, "how")
			if how == 0 {
				state.Fail = map[string]string{rapid.SampledFrom([]string{"pull", "rev"}).Draw(t, "op"): "exit"}
				set(state)
				say("failing update of %s", n)
				before := len(calls())
				ss[n].Update()
				hx.Eventually(t, "a pull", func() bool { return len(calls()) > before })
				check(n)
				state.Fail = map[string]string{}
				set(state)
			} else {
				set(state)
			}
			say("update of %s to %s", n, nr.Tree)
			lives[n] = nr
			ss[n].Update()
			hx.Eventually(t, "the update of "+n+" ("+strings.Join(hist, "; ")+")", func() bool {
				if how == 0 {
					ss[n].Update() // the earlier request may have come to nothing
				}
				res, err := ss[n].Search("^revision [0-9]+$", &index.SearchOptions{FileRegexp: "^id$"})
				if err != nil {
					fail("%s: %v", n, err)
				}
				return len(res.Matches) == 1 && res.Matches[0].Matches[0].Line+"\n" == nr.Tree["id"]
			})
			check(n)
			changes++
		}
		hx.Count(strings.Join(hist, "; "), changes > 0 || broken != "")
	})
}

// TestConfig gives the drivers random configuration data.
func TestConfig(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var name string
		if rapid.IntRange(0, 3).Draw(t, "known") > 0 {
			name = rapid.SampledFrom(append(drivers, "git", "local")).Draw(t, "driver")
		} else {
			name = rapid.SampledFrom([]string{"", "cvs", "GIT", " git", "Hg", "svn\x00", "git ", "é", "hg,git"}).Draw(t, "unknown")
		}
		data, bad := genConf(t)
		var wd *vcs.WorkDir
		var err error
		hx.Bounded(t, "vcs.New", func() { wd, err = vcs.New(name, data) })
		known := metas[name] != "" || name == "git" || name == "local"
		if !known && err == nil {
			t.Fatalf("%q is no driver, but there is no error", name)
		}
		if (err == nil) != (wd != nil) {
			t.Fatalf("vcs.New(%q, %q) = %v, %v", name, data, wd, err)
		}
		keyed := strings.HasPrefix(name, "s") || name == "git" || name == "local"
		if known && keyed {
			b := bad[name]
			if name == "subversion" {
				b = bad["svn"]
			}
			if b && err == nil {
				t.Fatalf("%s takes the configuration %q", name, data)
			}
			if !b && err != nil {
				t.Fatalf("%s does not take the configuration %q: %v", name, data, err)
			}
		}
		hx.Count(fmt.Sprintf("%q %q", name, data), !known || bad[name])
	})
}

// genConf makes configuration data and tells for which drivers it is bad.
func genConf(t *rapid.T) ([]byte, map[string]bool) {
	all := map[string]bool{"git": true, "svn": true, "local": true}
	switch rapid.IntRange(0, 5).Draw(t, "conf") {
	case 0:
		return nil, nil
	case 1: // no JSON
		return rapid.SampledFrom([][]byte{{}, []byte(" "), []byte("{"), []byte("}"), []byte("{\"ref\":}"), []byte("{'ref':1}"), []byte("{} {}"), []byte("\x00"), []byte("{\"username\":\"a\""), []byte("nul"), []byte("[]]")}).Draw(t, "junk"), all
	case 2: // no object
		return rapid.SampledFrom([][]byte{[]byte("[]"), []byte("1"), []byte("true"), []byte("\"x\""), []byte("[{}]"), []byte("1e999")}).Draw(t, "other"), all
	}
	types := map[string]string{"ref": "s", "detect-ref": "b", "username": "s", "password": "s", "watch-changes": "b", "other": "*"}
	owner := map[string]string{"ref": "git", "detect-ref": "git", "username": "svn", "password": "svn", "watch-changes": "local"}
	bad := map[string]bool{}
	var keys []string
	for k := range types {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	m := map[string]interface{}{}
	for _, k := range keys {
		switch rapid.IntRange(0, 5).Draw(t, k) {
		case 0:
			m[k] = rapid.SampledFrom([]string{"", "x", "é"}).Draw(t, "s")
			bad[owner[k]] = bad[owner[k]] || types[k] == "b"
		case 1:
			m[k] = rapid.Bool().Draw(t, "b")
			bad[owner[k]] = bad[owner[k]] || types[k] == "s"
		case 2:
			m[k] = rapid.SampledFrom([]interface{}{1, 1.5, []string{"x"}, map[string]string{"a": "b"}}).Draw(t, "v")
			bad[owner[k]] = bad[owner[k]] || owner[k] != ""
		}
	}
	b, err := json.Marshal(m)
	hx.Must(err)
	return b, bad
}
