package c11

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

// gitPlan is a start with a git repository, and pushes to it that follow.
type gitPlan struct {
	Db, Remote, Branch string
	Conf               string
	Pushes             []string // commits
}

// setTip changes a branch of a bare repository without git.
func setTip(remote, branch, id string) {
	p := filepath.Join(remote, "refs/heads", branch)
	hx.Must(os.WriteFile(p+".new", []byte(id+"\n"), 0o644))
	hx.Must(os.Rename(p+".new", p))
}

func gitChild() {
	var p gitPlan
	hx.Must(json.NewDecoder(os.Stdin).Decode(&p))
	no := false
	repo := &config.Repo{Url: "file://" + p.Remote, Vcs: "git", EnablePollUpdates: &no}
	yes := true
	repo.EnablePushUpdates = &yes
	if p.Conf != "" {
		m := config.SecretMessage(p.Conf)
		repo.VcsConfigMessage = &m
	}
	cfg := &config.Config{DbPath: p.Db, MaxConcurrentIndexers: 1, Repos: map[string]*config.Repo{"r": repo}}
	ss, errs, err := searcher.MakeAll(cfg)
	if err != nil || len(errs) > 0 {
		fmt.Println("FAILED start:", err, errs)
		os.Exit(3)
	}
	fmt.Println("STARTED")
	s := ss["r"]
	for _, id := range p.Pushes {
		setTip(p.Remote, p.Branch, id)
		for end := time.Now().Add(60 * time.Second); ; {
			s.Update()
			time.Sleep(30 * time.Millisecond)
			res, err := s.Search("^$never", &index.SearchOptions{})
			if err != nil {
				fmt.Println("FAILED search:", err)
				os.Exit(4)
			}
			if res.Revision == id {
				break
			}
			if time.Now().After(end) {
				fmt.Println("FAILED update: does not arrive, revision stays", res.Revision, "instead of", id)
				os.Exit(4)
			}
		}
		fmt.Println("UPDATED", id)
	}
	s.Stop()
	s.Wait()
	res, err := s.Search("", &index.SearchOptions{})
	if err != nil {
		fmt.Println("FAILED search:", err)
		os.Exit(4)
	}
	m := map[string]string{}
	for _, f := range res.Matches {
		var b strings.Builder
		for _, l := range f.Matches {
			b.WriteString(l.Line + "\n")
		}
		m[f.Filename] = b.String()
	}
	out := result{Revs: map[string]string{"r": res.Revision}, Files: map[string]map[string]string{"r": m}}
	fs, err := os.ReadDir(p.Db)
	hx.Must(err)
	for _, f := range fs {
		if strings.HasPrefix(f.Name(), "idx-") {
			out.Dirs = append(out.Dirs, f.Name())
		}
	}
	b, _ := json.Marshal(out)
	fmt.Println("DONE", string(b))
}

// TestGit: git, or hound and git, are killed while a repository is cloned or
// pulled. The next start, and the next update, get the current content.
func TestGit(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		branch := rapid.SampledFrom([]string{"master", "master", "main", "feature/x"}).Draw(t, "branch")
		r := hx.NewGitRemote(filepath.Join(d, "remote.git"), branch)
		conf := ""
		if branch != "master" {
			conf = rapid.SampledFrom([]string{`{"ref":"` + branch + `"}`, `{"detect-ref":true}`}).Draw(t, "conf")
		}
		gen := func(i int) *hx.GitCommit {
			tr := hx.TreeGen(6, 5).Draw(t, "tree")
			tr["id"] = fmt.Sprintf("commit %d\n", i)
			return r.Commit(branch, tr, rapid.Bool().Draw(t, "on top"))
		}
		var commits []*hx.GitCommit
		for i := 0; i < 4; i++ {
			commits = append(commits, gen(i))
		}
		// the database may be in a working copy of somebody's repository
		home := filepath.Join(d, "home")
		hx.Must(os.Mkdir(home, 0o755))
		outer := rapid.Bool().Draw(t, "outer")
		if outer {
			hx.Git(home, "init", "-q")
		}
		db := filepath.Join(home, "db")
		hx.Must(os.Mkdir(db, 0o755))
		tip := commits[0]
		setTip(r.Dir, branch, tip.Id)
		pick := func() *hx.GitCommit { return rapid.SampledFrom(commits).Draw(t, "commit") }
		var hist []string
		kills := 0
		pushed := false
		start := func(label string, kill *hx.GitKill) hx.ChildEnd {
			p := gitPlan{Db: db, Remote: r.Dir, Branch: branch, Conf: conf}
			if rapid.Bool().Draw(t, label+"moved") {
				tip = pick()
				setTip(r.Dir, branch, tip.Id)
			}
			first := tip
			pushed = false
			for i := rapid.IntRange(0, 3).Draw(t, label+"pushes"); i > 0; i-- {
				if c := pick(); c != tip {
					tip = c
					p.Pushes = append(p.Pushes, c.Id)
					pushed = true
				}
			}
			env := []string{"C11_CHILD=git"}
			if kill != nil {
				env = append(env, kill.Install(filepath.Join(d, label))...)
			}
			b, _ := json.Marshal(p)
			e := hx.Child{Env: env, Stdin: b}.Run()
			hist = append(hist, fmt.Sprintf("start at %.7s pushes %.7s", first.Id, p.Pushes))
			return e
		}
		fail := func(e hx.ChildEnd, what string) {
			t.Fatalf("%s: %s\nexit %d %v\n%s", strings.Join(hist, "; "), what, e.Code, e.Signal, hx.Tail(e.Out+e.Err, 3000))
		}
		judge := func(e hx.ChildEnd) {
			if e.Hang {
				fail(e, "HX-HANG")
			}
			i := strings.Index(e.Out, "DONE ")
			if e.Code != 0 || i < 0 {
				fail(e, "the start fails")
			}
			var res result
			hx.Must(json.Unmarshal([]byte(e.Out[i+5:]), &res))
			all, _ := expect(tip.Tree)
			if res.Revs["r"] != tip.Id {
				fail(e, fmt.Sprintf("the repository is at %q, want %q", res.Revs["r"], tip.Id))
			}
			if !hx.Same(res.Files["r"], all) {
				fail(e, fmt.Sprintf("the repository at %s holds\n%q\nwant\n%q", tip.Id, res.Files["r"], all))
			}
			if len(res.Dirs) != 1 {
				fail(e, fmt.Sprintf("index directories: %v", res.Dirs))
			}
		}
		for i := rapid.IntRange(1, 2).Draw(t, "crashes"); i > 0; i-- {
			k := hx.GitKillGen.Draw(t, "kill")
			label := fmt.Sprintf("crash%d", i)
			e := start(label, &k)
			hit := k.Hit(filepath.Join(d, label))
			if hit {
				kills++
				hist = append(hist, k.String())
				hx.Class("killed: "+k.Mode+" "+k.Cmd, 1)
			}
			switch {
			case e.Hang:
				fail(e, "HX-HANG")
			case e.Signal == syscall.SIGKILL && hit && k.Mode != "git":
				// what the remote is at depends on how far it came
				b, err := os.ReadFile(filepath.Join(r.Dir, "refs/heads", branch))
				hx.Must(err)
				for _, c := range commits {
					if c.Id == strings.TrimSpace(string(b)) {
						tip = c
					}
				}
			case e.Code == 3 && hit && k.Mode == "git":
				// this start fails, the next one must not
				b, err := os.ReadFile(filepath.Join(r.Dir, "refs/heads", branch))
				hx.Must(err)
				for _, c := range commits {
					if c.Id == strings.TrimSpace(string(b)) {
						tip = c
					}
				}
			case e.Code != 0:
				fail(e, "a start or an update fails")
			default:
				// the first pull may have failed, the updates have not
				if pushed || !hit {
					judge(e)
				}
			}
		}
		judge(start("final", nil))
		hx.Count(fmt.Sprint(strings.Join(hist, "; "), outer, conf), kills > 0, fmt.Sprintf("%d git crashes", kills))
	})
}
