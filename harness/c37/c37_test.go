// C37: hound changes nothing outside its database directory. The houndd
// program runs over generated repositories, changes, requests, kills and damages of
// its database, and everything around the database is compared.
package c37

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var port = 0

func addr() string {
	for i := 0; i < 1000; i++ {
		port = (port + 1) % 1000
		a := fmt.Sprintf("127.0.37.1:%d", 20000+1000*hx.EnvInt("HX_SHARD", 0)+port)
		l, err := net.Listen("tcp", a)
		if err == nil {
			l.Close()
			return a
		}
	}
	hx.Env("no free port")
	return ""
}

type buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return hx.Tail(b.b.String(), 3000)
}

// snapshot describes everything below d but the database and what is in the
// directory for temporary files.
func snapshot(d, db, tmp string) map[string]string {
	m := map[string]string{}
	hx.Must(filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		hx.Must(err)
		if p == db || p == tmp {
			return fs.SkipDir
		}
		fi, err := e.Info()
		hx.Must(err)
		s := fmt.Sprintf("%v", fi.Mode())
		// the database comes and goes in its directory
		if p != filepath.Dir(db) && p != d {
			s += " " + fi.ModTime().Format("15:04:05.000000000")
		}
		switch {
		case fi.Mode()&fs.ModeSymlink != 0:
			l, err := os.Readlink(p)
			hx.Must(err)
			s += " to " + l
		case fi.Mode().IsRegular():
			if fi.Mode().Perm() == 0 {
				s += fmt.Sprintf(" %d bytes", fi.Size())
				break
			}
			b, err := os.ReadFile(p)
			hx.Must(err)
			s += fmt.Sprintf(" %d bytes %q", len(b), hx.Tail(string(b), 80))
		}
		rel, _ := filepath.Rel(d, p)
		m[rel] = s
		if e.IsDir() && fi.Mode().Perm() == 0 {
			return fs.SkipDir
		}
		return nil
	}))
	return m
}

func diff(a, b map[string]string) string {
	var out []string
	for p, s := range a {
		if b[p] == "" {
			out = append(out, fmt.Sprintf("%s (%s) is gone", p, s))
		} else if b[p] != s {
			out = append(out, fmt.Sprintf("%s was %s, is %s", p, s, b[p]))
		}
	}
	for p, s := range b {
		if a[p] == "" {
			out = append(out, fmt.Sprintf("%s (%s) is new", p, s))
		}
	}
	sort.Strings(out)
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("and %d more", len(out)-6))
	}
	return strings.Join(out, "\n")
}

func setTip(remote, branch, id string) {
	p := filepath.Join(remote, "refs/heads", branch)
	hx.Must(os.WriteFile(p+".new", []byte(id+"\n"), 0o644))
	hx.Must(os.Rename(p+".new", p))
}

func TestOutside(t *testing.T) {
	houndd := filepath.Join(os.Getenv("HX_BUILD"), "houndd")
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		kd, rmk := hx.Scratch() // for the harness
		defer rmk()
		tmp, home, work := filepath.Join(d, "tmp"), filepath.Join(d, "home"), filepath.Join(d, "work")
		for _, p := range []string{tmp, home, work} {
			hx.Must(os.Mkdir(p, 0o755))
		}
		var hist []string
		say := func(f string, a ...interface{}) { hist = append(hist, strings.ReplaceAll(fmt.Sprintf(f, a...), d, "")) }

		// what is around: somebody's repository, with changes that are not committed
		mine := hx.NewGitRemote(filepath.Join(d, "mine.git"), "master")
		mine.Commit("master", hx.Tree{"README": "first\n", "lib/x.go": "foo\n"}, true)
		hx.Must(os.Remove(work))
		hx.Git(d, "clone", "-q", mine.Dir, work)
		mine.Commit("master", hx.Tree{"README": "second\n", "other": "foo\n"}, true)
		hx.Must(os.WriteFile(filepath.Join(work, "README"), []byte("not committed\n"), 0o644))
		hx.Must(os.WriteFile(filepath.Join(work, "notes"), []byte("foo not added\n"), 0o644))
		db := filepath.Join(work, "db")
		if rapid.IntRange(0, 3).Draw(t, "db") == 0 {
			hx.Must(os.Mkdir(filepath.Join(work, "lib/data"), 0o755))
			db = filepath.Join(work, "lib/data/db")
		}
		dbAtStart := rapid.Bool().Draw(t, "db exists")
		if dbAtStart {
			hx.Must(os.Mkdir(db, 0o755))
		}

		// git repositories
		branch := "master"
		r := hx.NewGitRemote(filepath.Join(d, "remote.git"), branch)
		var commits []*hx.GitCommit
		for i := 0; i < 3; i++ {
			tr := hx.TreeGen(4, 3).Draw(t, "tree")
			tr["id"] = fmt.Sprintf("commit %d foo\n", i)
			switch rapid.IntRange(0, 3).Draw(t, "links") {
			case 0:
				tr.AddPath("out", hx.LinkMark+"../../../notes")
				tr.AddPath("outdir", hx.LinkMark+work)
			case 1:
				tr.AddPath("out/f", "foo\n")
				tr.AddPath("outdir/README", "foo\n")
				tr.AddPath("outdir/lib/x.go", "foo\n")
			}
			commits = append(commits, r.Commit(branch, tr, rapid.Bool().Draw(t, "on top")))
		}
		setTip(r.Dir, branch, commits[0].Id)
		// local sources
		var sources []string
		for i := rapid.IntRange(1, 2).Draw(t, "sources"); i > 0; i-- {
			src := filepath.Join(d, fmt.Sprintf("src%d", i))
			tr := hx.TreeGen(4, 3).Draw(t, "source")
			tr["id"] = "source foo\n"
			hx.WriteTree(src, tr)
			if rapid.Bool().Draw(t, "link in source") {
				hx.Must(os.Symlink(work, filepath.Join(src, "ln-work")))
				hx.Must(os.Symlink("../home", filepath.Join(src, "ln-home")))
			}
			sources = append(sources, src)
		}
		if rapid.Bool().Draw(t, "linked source") {
			hx.Must(os.Symlink("src1", filepath.Join(d, "srcln")))
			sources = append(sources, filepath.Join(d, "srcln"))
		}

		var fail func(f string, a ...interface{})
		before := snapshot(d, db, tmp)
		check := func() {
			if s := diff(before, snapshot(d, db, tmp)); s != "" {
				fail("changed outside of the database %s:\n%s", db, s)
			}
		}
		// change lets the harness change something
		change := func(f func()) {
			check()
			f()
			before = snapshot(d, db, tmp)
		}

		config := func() (string, string) {
			repos := map[string]interface{}{}
			add := func(name, u, vcs string, vc map[string]interface{}) {
				if rapid.IntRange(0, 4).Draw(t, "out of config") == 0 {
					return
				}
				m := map[string]interface{}{"url": u, "vcs": vcs, "enable-push-updates": true, "enable-poll-updates": rapid.Bool().Draw(t, "poll"), "ms-between-poll": 25}
				if vc != nil {
					m["vcs-config"] = vc
				}
				if rapid.IntRange(0, 3).Draw(t, "dots") == 0 {
					m["exclude-dot-files"] = true
				}
				repos[name] = m
			}
			add("g", r.Url(), "git", nil)
			if rapid.IntRange(0, 2).Draw(t, "twice") == 0 {
				add("g2", r.Url(), "git", map[string]interface{}{"detect-ref": true})
			}
			for i, s := range sources {
				add(fmt.Sprintf("l%d", i), "file://"+s, "local", map[string]interface{}{"watch-changes": rapid.Bool().Draw(t, "watch"), "ignored-files": []string{"id"}[:rapid.IntRange(0, 1).Draw(t, "ignored")]})
			}
			if len(repos) == 0 {
				repos["l0"] = map[string]interface{}{"url": "file://" + sources[0], "vcs": "local"}
			}
			rel, err := filepath.Rel(work, db)
			hx.Must(err)
			if rapid.Bool().Draw(t, "absolute") {
				rel = db
			}
			b, err := json.Marshal(map[string]interface{}{"dbpath": rel, "repos": repos, "max-concurrent-indexers": 2})
			hx.Must(err)
			change(func() { hx.Must(os.WriteFile(filepath.Join(work, "config.json"), b, 0o644)) })
			return string(b), filepath.Join(work, "config.json")
		}

		// spoil makes a part of a source unreadable, or readable again, or takes the source away or back
		spoil := func() {
			src := rapid.SampledFrom(sources[:1]).Draw(t, "spoilt")
			p := filepath.Join(src, rapid.SampledFrom([]string{"id", "no", ""}).Draw(t, "part"))
			if p == src {
				away := src + ".away"
				change(func() {
					if os.Rename(src, away) != nil {
						os.Rename(away, src)
					}
				})
				say("%s is taken away or back", src)
				return
			}
			change(func() {
				if filepath.Base(p) == "no" {
					os.Mkdir(p, 0o755)
				}
				if fi, err := os.Stat(p); err == nil && fi.Mode().Perm() != 0 {
					os.Chmod(p, 0)
				} else {
					os.Chmod(p, 0o755)
				}
			})
			say("%s gets (un)readable", p)
		}

		ready, hits := 0, 0
		for run := rapid.IntRange(1, 4).Draw(t, "starts"); run > 0; run-- {
			if rapid.IntRange(0, 4).Draw(t, "spoil") == 0 {
				spoil()
			}
			conf, file := config()
			say("start %s", conf)
			a := addr()
			var env []string
			var kill *hx.GitKill
			label := filepath.Join(kd, fmt.Sprintf("start%d", run))
			if rapid.IntRange(0, 2).Draw(t, "kill?") == 0 {
				k := hx.GitKillGen.Draw(t, "kill")
				kill = &k
				env = k.Install(label)
			}
			cmd := exec.Command(houndd, "-conf", file, "-addr", a)
			cmd.Env = append(append(os.Environ(), "HOME="+home, "TMPDIR="+tmp, "XDG_CONFIG_HOME="+home+"/.config"), env...)
			cmd.Dir = work
			if rapid.Bool().Draw(t, "cwd") {
				cmd.Dir = filepath.Join(work, "lib")
			}
			var out buf
			cmd.Stdout, cmd.Stderr = &out, &out
			cmd.WaitDelay = 5 * time.Second
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			hx.Must(cmd.Start())
			gone := make(chan struct{})
			go func() { cmd.Wait(); close(gone) }()
			stop := func() {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-gone
				if kill != nil {
					kill.Sweep(label)
				}
			}
			fail = func(f string, a ...interface{}) {
				stop()
				t.Fatalf("%s\nhistory: %s\n%s", fmt.Sprintf(f, a...), strings.Join(hist, "\n"), &out)
			}
			ended := func() bool {
				select {
				case <-gone:
					return true
				default:
					return false
				}
			}
			client := &http.Client{Timeout: hx.Patience(), Transport: &http.Transport{DisableKeepAlives: true}}
			do := func(method, p, body string) (int, string) {
				req, err := http.NewRequest(method, "http://"+a, strings.NewReader(body))
				hx.Must(err)
				req.URL = &url.URL{Scheme: "http", Host: a, Opaque: p}
				if method == "POST" {
					req.Header.Set("Content-Type", "application/json")
				}
				resp, err := client.Do(req)
				if err != nil {
					return 0, err.Error()
				}
				defer resp.Body.Close()
				b, _ := io.ReadAll(resp.Body)
				return resp.StatusCode, string(b)
			}
			up := false
			hx.Eventually(t, "houndd getting ready", func() bool {
				if ended() {
					return true
				}
				code, _ := do("GET", "/api/v1/search?q=foo&repos=*", "")
				up = code == 200
				return up
			})
			hit := func() bool { return kill != nil && kill.Hit(label) }
			if up {
				ready++
				check()
			}
			for i := rapid.IntRange(0, 6).Draw(t, "steps"); i > 0 && up && !ended(); i-- {
				switch rapid.IntRange(0, 6).Draw(t, "step") {
				case 6:
					spoil()
					say("update")
					do("GET", "/api/v1/update?repos=*", "")
					time.Sleep(30 * time.Millisecond)
				case 0:
					c := rapid.SampledFrom(commits).Draw(t, "commit")
					change(func() { setTip(r.Dir, branch, c.Id) })
					say("push %.7s", c.Id)
				case 1:
					src := rapid.SampledFrom(sources).Draw(t, "source")
					name := rapid.SampledFrom([]string{"id", "new", "new2"}).Draw(t, "name")
					data := rapid.SampledFrom([]string{"", "foo\n", "bar\n"}).Draw(t, "data")
					change(func() {
						p := filepath.Join(src, name)
						if fi, err := os.Stat(p); err == nil && fi.Mode().Perm() == 0 {
							return
						}
						if _, err := os.Stat(src); err != nil {
							return
						}
						if data == "" {
							os.Remove(p)
						} else {
							hx.Must(os.WriteFile(p, []byte(data), 0o644))
						}
					})
					say("change %s/%s", filepath.Base(src), name)
				case 2, 3:
					do("GET", "/api/v1/update?repos=*", "")
					if b := rapid.Bool().Draw(t, "wait"); b {
						time.Sleep(40 * time.Millisecond)
					}
					say("update")
				case 4:
					p := rapid.SampledFrom([]string{
						"/", "/excluded_files.html", "/open_search.xml", "/js/../../../../etc/passwd", "/css/..%2f..%2fnotes", "/%2e%2e/db",
						"/api/v1/repos", "/api/v1/excludes?repo=g", "/api/v1/excludes?repo=../../work", "/api/v1/excludes?repo=l0",
						"/api/v1/search?q=foo&repos=*&files=..%2f", "/api/v1/search?q=foo&repos=..%2f..,g&i=true&rng=0:1", "/api/v1/search?q=.&repos=*&stats=1&ctx=20",
						"/api/v1/search?q=%5C&repos=*", "/api/v1/update?repos=..%2fwork,l0", "/api/v1/nothing",
					}).Draw(t, "get")
					m := rapid.SampledFrom([]string{"GET", "GET", "POST", "DELETE", "PUT"}).Draw(t, "method")
					do(m, p, "")
					say("%s %s", m, p)
				case 5:
					b := rapid.SampledFrom([]string{`{"repository":{"name":"g","full_name":"g"}}`, `{"repository":{"full_name":"../work"}}`, `{`, ``, `null`}).Draw(t, "hook")
					do("POST", "/api/v1/github-webhook", b)
					say("webhook %s", b)
				}
			}
			check()
			if !ended() && rapid.IntRange(0, 2).Draw(t, "graceful") > 0 {
				say("SIGTERM")
				cmd.Process.Signal(syscall.SIGTERM)
				hx.Eventually(t, "the end of houndd", ended)
				if !hit() {
					fs, err := os.ReadDir(tmp)
					hx.Must(err)
					if len(fs) > 0 {
						fail("temporary files are left: %v", fs)
					}
				}
			} else {
				say("killed")
			}
			stop()
			if hit() {
				hits++
				say("%v", kill)
			} else if !up {
				fail("houndd ends")
			}
			check()
			// a crash may leave temporary files
			fs, err := os.ReadDir(tmp)
			hx.Must(err)
			for _, f := range fs {
				hx.Must(os.RemoveAll(filepath.Join(tmp, f.Name())))
			}
			// the database is damaged, when nothing is left that works in it
			remove := func(p string) {
				for i := 0; ; i++ {
					err := os.RemoveAll(p)
					if err == nil {
						return
					}
					if i == 100 {
						hx.Must(err)
					}
					time.Sleep(20 * time.Millisecond)
				}
			}
			if run > 1 && rapid.IntRange(0, 1).Draw(t, "damage") == 0 {
				ents, _ := os.ReadDir(db)
				for _, e := range ents {
					p := filepath.Join(db, e.Name())
					if !strings.HasPrefix(e.Name(), "vcs-") {
						if strings.HasPrefix(e.Name(), "idx-") && rapid.IntRange(0, 3).Draw(t, "index") == 0 {
							remove(filepath.Join(p, "metadata.gob"))
							say("%s loses its metadata", e.Name())
						}
						continue
					}
					how := rapid.IntRange(0, 5).Draw(t, "how")
					if !e.IsDir() {
						// a link to a source
						if how == 0 {
							hx.Must(os.Remove(p))
							say("the link %s is removed", e.Name())
						}
						continue
					}
					git := filepath.Join(p, ".git")
					switch how {
					case 0:
						remove(git)
						say("%s loses its .git", e.Name())
					case 1:
						remove(filepath.Join(git, "HEAD"))
						say("%s loses its .git/HEAD", e.Name())
					case 2:
						remove(p)
						hx.Must(os.Mkdir(p, 0o755))
						say("%s is emptied", e.Name())
					case 3:
						remove(filepath.Join(git, "config"))
						remove(filepath.Join(git, "objects"))
						say("%s loses its .git/config and objects", e.Name())
					case 4:
						remove(p)
						say("%s is removed", e.Name())
					}
					hx.Class("damaged working copy", 1)
				}
			}
		}
		hx.Count(strings.Join(hist, "; "), ready > 1 || hits > 0, fmt.Sprintf("%d kills", hits))
		hx.Class("starts that got ready", int64(ready))
	})
}
