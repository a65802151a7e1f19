// C19: the revision of a local repository changes exactly when its content
// changes, and a local repository is indexed like any other tree.
package c19

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// state is what a directory holds: regular files, and everything else except
// directories.
type state struct{ files, others map[string]string }

func read(dir string) state {
	s := state{map[string]string{}, map[string]string{}}
	hx.Must(filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		switch {
		case e.IsDir():
		case e.Type().IsRegular():
			b, err := os.ReadFile(p)
			hx.Must(err)
			s.files[rel] = string(b)
		default:
			to, _ := os.Readlink(p)
			s.others[rel] = e.Type().String() + to
		}
		return nil
	}))
	return s
}

var names = []string{"a", "b", "ab", "a b", "a  b", "sub/a", "sub/b", "sub/deep/a", "sub.x", "-x", ".dot", ".git/config", "nl\nname", "a\n", "q\"x", "\xff\xfe", "é", "back\\slash", "#", "%20", "$HOME", "~", "*"}

// change makes one random change below dir and describes it.
// Where contents are only hashed and never searched, large asks for large ones.
func change(t *rapid.T, dir string, large bool) string {
	s := read(dir)
	var have []string
	for p := range s.files {
		have = append(have, p)
	}
	sort.Strings(have)
	fresh := func() (string, bool) {
		p := rapid.SampledFrom(names).Draw(t, "name")
		full := filepath.Join(dir, p)
		if _, err := os.Lstat(full); err == nil {
			return "", false
		}
		return p, os.MkdirAll(filepath.Dir(full), 0o755) == nil
	}
	content := func() string {
		// now and then larger than any buffer or window a hash might read through
		if n := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3}).Draw(t, "large"); large && n > 0 {
			size := []int{0, 70 << 10, 1<<20 + 17, 5 << 19}[n]
			return strings.Repeat("long line\n", size/10) + rapid.SampledFrom([]string{"", "x", "y"}).Draw(t, "end")
		}
		return rapid.SampledFrom([]string{"", "x", "y", "foo\n", "bar\n", "x  \"a\"\n", strings.Repeat("long\n", 9000)}).Draw(t, "content")
	}
	op := rapid.IntRange(0, 13).Draw(t, "change")
	if len(have) == 0 && op > 3 && op < 11 {
		op = 0
	}
	pick := func() string { return rapid.SampledFrom(have).Draw(t, "file") }
	switch op {
	case 0, 1, 2, 3:
		p, ok := fresh()
		if !ok {
			return "nothing"
		}
		c := content()
		hx.Must(os.WriteFile(filepath.Join(dir, p), []byte(c), 0o644))
		return fmt.Sprintf("add %q %s", p, hx.Q(c[:min(len(c), 20)]))
	case 4:
		p := pick()
		hx.Must(os.Remove(filepath.Join(dir, p)))
		return fmt.Sprintf("remove %q", p)
	case 5:
		p := pick()
		q, ok := fresh()
		if !ok {
			return "nothing"
		}
		hx.Must(os.Rename(filepath.Join(dir, p), filepath.Join(dir, q)))
		return fmt.Sprintf("rename %q to %q", p, q)
	case 6: // contents swapped
		p, q := pick(), pick()
		a, b := s.files[p], s.files[q]
		hx.Must(os.WriteFile(filepath.Join(dir, p), []byte(b), 0o644))
		hx.Must(os.WriteFile(filepath.Join(dir, q), []byte(a), 0o644))
		return fmt.Sprintf("swap %q and %q", p, q)
	case 7: // same size, same times
		p := pick()
		if len(s.files[p]) == 0 {
			return "nothing"
		}
		full := filepath.Join(dir, p)
		fi, err := os.Stat(full)
		hx.Must(err)
		b := []byte(s.files[p])
		at := len(b) - 1
		if rapid.Bool().Draw(t, "anywhere") {
			at = rapid.IntRange(0, len(b)-1).Draw(t, "at")
		}
		b[at] ^= 1
		hx.Must(os.WriteFile(full, b, 0o644))
		hx.Must(os.Chtimes(full, fi.ModTime(), fi.ModTime()))
		return fmt.Sprintf("flip byte %d of %q, keeping its times", at, p)
	case 8:
		p := pick()
		c := content()
		hx.Must(os.WriteFile(filepath.Join(dir, p), []byte(c), 0o644))
		return fmt.Sprintf("write %q %s", p, hx.Q(c[:min(len(c), 20)]))
	case 9: // nothing that counts
		p := pick()
		full := filepath.Join(dir, p)
		hx.Must(os.Chmod(full, 0o755))
		tm := time.Unix(int64(rapid.IntRange(1, 2000000000).Draw(t, "time")), 0)
		hx.Must(os.Chtimes(full, tm, tm))
		hx.Must(os.MkdirAll(filepath.Join(dir, "empty", "dir"), 0o755))
		return fmt.Sprintf("touch and chmod %q, make empty directories", p)
	case 10: // written anew
		p := pick()
		full := filepath.Join(dir, p)
		hx.Must(os.Remove(full))
		hx.Must(os.WriteFile(full, []byte(s.files[p]), 0o644))
		return fmt.Sprintf("write %q again as it was", p)
	case 11, 12:
		p, ok := fresh()
		if !ok {
			return "nothing"
		}
		to := rapid.SampledFrom([]string{"a", "nowhere", "..", "/etc", "."}).Draw(t, "to")
		hx.Must(os.Symlink(to, filepath.Join(dir, p)))
		return fmt.Sprintf("link %q to %q", p, to)
	}
	p, ok := fresh()
	if !ok {
		return "nothing"
	}
	hx.Must(syscall.Mkfifo(filepath.Join(dir, p), 0o644))
	return fmt.Sprintf("make FIFO %q", p)
}

// genRoot makes the source directory and the url path that leads to it.
func genRoot(t *rapid.T, d string) (src, path string) {
	src = filepath.Join(d, rapid.SampledFrom([]string{"src", "s r c", "vcs-src", "100%20", "q?x#y", "idx-1", "é"}).Draw(t, "src"))
	hx.Must(os.Mkdir(src, 0o755))
	path = src
	for i := rapid.IntRange(0, 2).Draw(t, "links"); i > 0; i-- {
		l := filepath.Join(d, fmt.Sprintf("link%d", i))
		to := path
		if rapid.Bool().Draw(t, "relative") {
			to, _ = filepath.Rel(d, path)
		}
		hx.Must(os.Symlink(to, l))
		path = l
	}
	if rapid.IntRange(0, 5).Draw(t, "slash") == 0 {
		path += "/"
	}
	return src, path
}

func conf(watch bool) []byte {
	if !watch {
		return nil
	}
	b, _ := json.Marshal(map[string]interface{}{"watch-changes": true})
	return b
}

func TestRevision(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		src, path := genRoot(t, d)
		watch := rapid.IntRange(0, 5).Draw(t, "watch") > 0
		hist := []string{fmt.Sprintf("%q watch=%v", strings.TrimPrefix(path, d), watch)}
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		for i := rapid.IntRange(0, 6).Draw(t, "first"); i > 0; i-- {
			hist = append(hist, change(t, src, true))
		}
		dir := filepath.Join(d, "vcs-00112233445566778899")
		type seen struct {
			s   state
			rev string
		}
		var past []seen
		same, differ := 0, 0
		for k := rapid.IntRange(2, 8).Draw(t, "steps"); k >= 0; k-- {
			wd, err := vcs.New("local", conf(watch)) // possibly another process
			if err != nil {
				fail("vcs.New: %v", err)
			}
			var rev string
			hx.Bounded(t, "PullOrClone", func() { rev, err = wd.PullOrClone(dir, "file://"+path) })
			if err != nil {
				fail("PullOrClone: %v", err)
			}
			hist = append(hist, "revision "+rev)
			if rev == "" {
				fail("the revision is empty")
			}
			now := seen{read(src), rev}
			for _, p := range past {
				sameFiles := hx.Same(p.s.files, now.s.files)
				sameAll := sameFiles && hx.Same(p.s.others, now.s.others)
				switch {
				case !watch:
					if p.rev != rev {
						fail("the revision of an unwatched directory changes: %q, %q", p.rev, rev)
					}
				case sameAll && p.rev != rev:
					fail("the same files have revisions %q and %q", p.rev, rev)
				case !sameFiles && p.rev == rev:
					fail("different files have the same revision %q: %s", rev, hx.DiffTrees(hx.Tree(p.s.files), hx.Tree(now.s.files)))
				}
				if sameAll {
					same++
				} else if !sameFiles {
					differ++
				}
			}
			past = append(past, now)
			for i := rapid.IntRange(0, 2).Draw(t, "changes"); i > 0; i-- {
				hist = append(hist, change(t, src, true))
			}
			if len(past) > 1 && rapid.IntRange(0, 4).Draw(t, "back") == 0 {
				// back to an earlier content, in another order
				p := rapid.SampledFrom(past).Draw(t, "earlier")
				ents, err := os.ReadDir(src)
				hx.Must(err)
				for _, e := range ents {
					hx.Must(os.RemoveAll(filepath.Join(src, e.Name())))
				}
				hx.WriteTree(src, hx.Tree(p.s.files))
				hist = append(hist, "back to the files of "+p.rev)
			}
		}
		hx.Count(strings.Join(hist, "; "), watch && same > 0 && differ > 0)
	})
}

func TestErrors(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		dir := filepath.Join(d, "vcs-0011")
		url := rapid.SampledFrom([]string{"/etc", "http://x/y", "", "file:/etc", "git://x", "FILE:///etc", "file:" + d, d}).Draw(t, "url")
		watch := rapid.Bool().Draw(t, "watch")
		wd, err := vcs.New("local", conf(watch))
		hx.Must(err)
		rev, err := wd.PullOrClone(dir, url)
		if err == nil {
			t.Fatalf("the url %q is accepted, revision %q", url, rev)
		}
		// a missing directory is no revision of a watched one
		missing := "file://" + filepath.Join(d, "missing")
		wd, err = vcs.New("local", conf(true))
		hx.Must(err)
		if rev, err := wd.PullOrClone(dir, missing); err == nil {
			t.Fatalf("a watched directory that does not exist has revision %q", rev)
		}
		bad := rapid.SampledFrom([]string{"[]", "{", "\"x\"", `{"watch-changes":"yes"}`, `{"ignored-files":"x"}`, ""}).Draw(t, "config")
		if _, err := vcs.New("local", []byte(bad)); err == nil {
			t.Fatalf("the configuration %q is accepted", bad)
		}
		hx.Count(fmt.Sprintf("%q %v %q", strings.ReplaceAll(url, d, "D"), watch, bad), true)
	})
}

func TestSearch(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		src, path := genRoot(t, d)
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		watch := rapid.IntRange(0, 4).Draw(t, "watch") > 0
		poll := rapid.Bool().Draw(t, "poll")
		ignored := rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a", "sub.x", "deep"}), 0, 2, rapid.ID[string]).Draw(t, "ignored")
		m, _ := json.Marshal(map[string]interface{}{"watch-changes": watch, "ignored-files": ignored})
		msg := config.SecretMessage(m)
		push := true
		cfg := &config.Config{DbPath: db, MaxConcurrentIndexers: 1, Repos: map[string]*config.Repo{
			"r": {Url: "file://" + path, Vcs: "local", VcsConfigMessage: &msg, MsBetweenPolls: 3, EnablePollUpdates: &poll, EnablePushUpdates: &push},
		}}
		hist := []string{fmt.Sprintf("%q watch=%v poll=%v ignored=%q", strings.TrimPrefix(path, d), watch, poll, ignored)}
		fail := func(f string, a ...interface{}) {
			t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(hist, "; "))
		}
		for i := rapid.IntRange(0, 6).Draw(t, "first"); i > 0; i-- {
			hist = append(hist, change(t, src, false))
		}
		isIgnored := func(p string) bool {
			for _, s := range strings.Split(p, "/") {
				for _, x := range ignored {
					if s == x {
						return true
					}
				}
			}
			return false
		}
		want := func() (map[string]string, map[string]bool) {
			s := read(src)
			files, out := map[string]string{}, map[string]bool{}
			for p, data := range s.files {
				if isIgnored(p) {
					continue
				}
				if ls := hx.Lines(data); len(ls) > 0 {
					files[p] = strings.Join(ls, "\n") + "\n"
				}
			}
			for p := range s.others {
				if !isIgnored(p) {
					out[p] = true
				}
			}
			return files, out
		}
		var ss map[string]*searcher.Searcher
		look := func() (map[string]string, map[string]bool) {
			res, err := ss["r"].Search("", &index.SearchOptions{})
			if err != nil {
				fail("search: %v", err)
			}
			got, out := map[string]string{}, map[string]bool{}
			for _, f := range res.Matches {
				for _, m := range f.Matches {
					got[f.Filename] += m.Line + "\n"
				}
			}
			var ex []index.ExcludedFile
			if err := json.Unmarshal([]byte(ss["r"].GetExcludedFiles()), &ex); err != nil {
				fail("exclusion list: %v", err)
			}
			for _, e := range ex {
				out[e.Filename] = true
			}
			return got, out
		}
		odd := func(p string) bool { return strings.ContainsRune(strings.ToValidUTF8(p, "\uFFFD"), 0xFFFD) }
		clean := func(m map[string]bool) map[string]bool { // JSON cannot carry names that are not UTF-8
			c := map[string]bool{}
			for p := range m {
				if !odd(p) {
					c[p] = true
				}
			}
			return c
		}
		start := func() error {
			var errs map[string]error
			var err error
			hx.Bounded(t, "MakeAll", func() { ss, errs, err = searcher.MakeAll(cfg) })
			hx.Must(err)
			return errs["r"]
		}
		stop := func() {
			for _, s := range ss {
				s.Stop()
				hx.Bounded(t, "Wait", s.Wait)
			}
			ss = nil
		}
		if err := start(); err != nil {
			fail("start: %v", err)
		}
		defer func() { stop() }()
		files, out := want()
		reach := func(what string) {
			hx.Eventually(t, fmt.Sprintf("%s is searchable (history: %s)", what, strings.Join(hist, "; ")), func() bool {
				got, gout := look()
				return hx.Same(got, files) && hx.Same(clean(gout), clean(out))
			})
		}
		exactly := func(what string) {
			got, gout := look()
			if !hx.Same(got, files) {
				fail("%s: %s", what, hx.DiffTrees(files, got))
			}
			if !hx.Same(clean(gout), clean(out)) {
				fail("%s: excluded %v, want %v", what, gout, out)
			}
		}
		exactly("after the first start")
		changes := 0
		for k := rapid.IntRange(1, 4).Draw(t, "steps"); k > 0; k-- {
			restart := rapid.IntRange(0, 3).Draw(t, "restart") == 0
			if restart {
				stop()
			}
			before := read(src)
			for i := rapid.IntRange(1, 3).Draw(t, "changes"); i > 0; i-- {
				hist = append(hist, change(t, src, false))
			}
			now := read(src)
			if watch && !hx.Same(before.files, now.files) {
				files, out = want()
				changes++
			} else if watch {
				// only the excluded list can have changed: allow both by changing a file
				hx.Must(os.WriteFile(filepath.Join(src, "always"), []byte(fmt.Sprintf("round %d\n", k)), 0o644))
				hist = append(hist, "write \"always\"")
				files, out = want()
			}
			if restart {
				hist = append(hist, "restart")
				if err := start(); err != nil {
					fail("restart: %v", err)
				}
				exactly("after a restart")
				continue
			}
			if !poll {
				ss["r"].Update()
				hist = append(hist, "push")
			}
			if watch {
				reach("the changed directory")
			} else {
				time.Sleep(4 * time.Millisecond)
				exactly("an unwatched directory after a change")
			}
		}
		hx.Count(strings.Join(hist, "; "), changes > 0)
	})
}
