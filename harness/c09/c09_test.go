// C09: every file of a repository is searchable or listed as excluded.
// Generated source trees with every kind of entry; the searchable files are
// read back through a search that matches every line, the excluded ones
// through the exclusion list.
package c09

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unicode/utf8"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

type entry struct {
	path, kind, data, target string
}

// badText has invalid UTF-8 that must be noticed.
func badText(t *rapid.T) string {
	bad := rapid.SampledFrom([]string{"\xff", "\xfe", "\xc0", "a\x80", "\xe6\x97x", "\xf8\x88\x80\x80", "\x80", "\xc3(", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf4\xbf\xbf\xbf", "\xf0\x80\x80\x80", "\xe0\x80\x80", "\xf0\x8f\xbf\xbf", "\xed\xbf\xbf", "\xc1\xbf"}).Draw(t, "bad")
	pre := hx.TextGen(4).Draw(t, "pre")
	switch rapid.IntRange(0, 5).Draw(t, "where") {
	case 4, 5:
		// at the end of what is looked at first
		n := 2048 - rapid.IntRange(1, 5).Draw(t, "before")
		return strings.Repeat("x\n", n/2) + strings.Repeat("y", n%2) + bad + "\n tail\n"
	case 0:
		return bad + pre + "\n"
	case 1:
		return pre + bad + " tail\n"
	case 2:
		return strings.Repeat("some text\n", rapid.IntRange(1, 400).Draw(t, "n")) + bad + " tail\n"
	default:
		n := rapid.IntRange(2040, 2056).Draw(t, "n")
		return strings.Repeat("x", n) + bad + " tail\n"
	}
}

// edgeText has a multi-byte rune across the peek limit, or ends within one.
func edgeText(t *rapid.T) string {
	r := rapid.SampledFrom([]string{"é", "日", "\U0001F600"}).Draw(t, "rune")
	n := rapid.IntRange(2040, 2050).Draw(t, "n")
	s := strings.Repeat("y", n) + r + rapid.SampledFrom([]string{"", "\n", "more\n"}).Draw(t, "end")
	if rapid.IntRange(0, 5).Draw(t, "cut") == 0 {
		s = s[:len(s)-1]
	}
	return s
}

// longText has lines around the length limit, in proportions around the ratio.
func longText(t *rapid.T) string {
	var b strings.Builder
	long, total := rapid.IntRange(0, 4).Draw(t, "long"), rapid.IntRange(1, 40).Draw(t, "total")
	for i := 0; i < total; i++ {
		if i < long {
			b.WriteString(strings.Repeat("w", rapid.IntRange(1995, 2005).Draw(t, "w")) + "\n")
		} else {
			b.WriteString("short\n")
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "tail") == 0 {
		b.WriteString(strings.Repeat("v", rapid.IntRange(1, 5000).Draw(t, "v")))
	}
	return b.String()
}

// richText has many distinct trigrams: below or above the limit, padded to
// ratios on both sides of the limit.
func richText(t *rapid.T) string {
	n := rapid.SampledFrom([]int{19000, 20400, 23000, 30000}).Draw(t, "n")
	x := rapid.Uint64().Draw(t, "seed") | 1
	var b strings.Builder
	for i := 0; i < n; i++ {
		x = x*6364136223846793005 + 1442695040888963407
		b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_()[]"[x>>33%66])
		if i%80 == 79 {
			b.WriteByte('\n')
		}
	}
	b.WriteString(strings.Repeat("pad\n", rapid.SampledFrom([]int{0, 1000, 45000, 80000}).Draw(t, "pad")))
	return b.String()
}

func hugeText(t *rapid.T) string {
	size := 1<<25 + rapid.SampledFrom([]int{-1, 0, 1, -70000}).Draw(t, "size")
	line := "a line of a huge file, long enough to keep the number of lines small. " + strings.Repeat("0123456789", 40) + "\n"
	s := strings.Repeat(line, size/len(line)+1)
	return s[:size]
}

func entryGen(t *rapid.T, i int, huge bool) entry {
	seg := rapid.SampledFrom([]string{"a", "b", "lib", "src", "x y", "é", ".hidden", ".git", ".svn", "vendor", "CVS", "foo.go", "日本", "-n", "q\"'<&>", "new\nline", "..dots", "dot.", "%41", "A", strings.Repeat("n", 200)})
	n := rapid.IntRange(1, 4).Draw(t, "depth")
	parts := make([]string, n)
	for j := range parts {
		parts[j] = seg.Draw(t, "seg")
	}
	e := entry{path: strings.Join(parts, "/")}
	k := rapid.IntRange(0, 20).Draw(t, "kind")
	switch {
	case k < 8:
		e.kind, e.data = "text", hx.TextGen(6).Draw(t, "text")
	case k == 8:
		e.kind, e.data = "text", ""
	case k == 9 || k == 20:
		e.kind, e.data = "bad", badText(t)
	case k == 10:
		e.kind, e.data = "edge", edgeText(t)
	case k == 11:
		e.kind, e.data = "long", longText(t)
	case k == 12:
		e.kind, e.data = "rich", richText(t)
	case k == 13:
		e.kind, e.data = "bytes", string(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes"))
	case k == 14:
		e.kind, e.data = "nul", "nul\x00byte\nand \x01\x02\x7f\n"
	case k == 15:
		e.kind, e.target = "symlink", rapid.SampledFrom([]string{"a", "../secret", "/etc", "missing", ".", "..", "lib", "foo.go"}).Draw(t, "target")
	case k == 16:
		e.kind, e.target = "symlink", "@outside/"+rapid.SampledFrom([]string{"file", "dir", "gone"}).Draw(t, "out")
	case k == 17:
		e.kind = "fifo"
	case k == 18:
		e.kind = "dir"
	default:
		e.kind, e.data = "text", hx.TextGen(3).Draw(t, "text")
		if huge && i == 0 {
			e.kind, e.data = "huge", hugeText(t)
		}
	}
	if huge && i == 0 {
		e = entry{path: "huge", kind: "huge", data: hugeText(t)}
	}
	return e
}

func conflicts(es []entry, p string) bool {
	for _, e := range es {
		if e.path == p || strings.HasPrefix(e.path, p+"/") || strings.HasPrefix(p, e.path+"/") && e.kind != "dir" {
			return true
		}
	}
	return false
}

// badPair tells whether two adjacent bytes (or the first byte) cannot occur in UTF-8.
func badPair(s string) bool {
	prev := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok := false
		switch {
		case prev < 0x80:
			ok = c < 0x80 || 0xc0 <= c && c < 0xf8
		case prev < 0xc0:
			ok = c < 0xf8
		case prev < 0xf8:
			ok = 0x80 <= c && c < 0xc0
		}
		if !ok {
			return true
		}
		prev = c
	}
	return false
}

func mustExclude(s string) bool {
	if badPair(s) {
		return true
	}
	if len(s) < 2048 {
		return !utf8.ValidString(s)
	}
	head := s[:2048]
	for cut := 0; cut < utf8.UTFMax; cut++ {
		if utf8.ValidString(head[:2048-cut]) {
			return false
		}
	}
	return true
}

func mustIndex(s string) bool {
	if !utf8.ValidString(s) || len(s) > 1<<25 {
		return false
	}
	tris := map[string]struct{}{}
	for i := 0; i+3 <= len(s) && len(s) < 1<<22; i++ {
		tris[s[i:i+3]] = struct{}{}
	}
	if len(tris) > 20000 && float64(len(tris))/float64(len(s)) > 0.0999 {
		return false
	}
	long, lines := 0, 0
	for _, l := range strings.SplitAfter(s, "\n") {
		if !strings.HasSuffix(l, "\n") {
			continue
		}
		lines++
		if len(l) > 2000 {
			long++
		}
	}
	return lines == 0 || float64(long)/float64(lines) < 0.1001
}

var special = map[string]bool{".git": true, ".svn": true, "vendor": true, ".hxfake": true}

func TestEveryFile(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		hx.Must(os.MkdirAll(filepath.Join(d, "outside/dir"), 0o755))
		hx.Must(os.WriteFile(filepath.Join(d, "outside/file"), []byte("outside secret\n"), 0o644))
		hx.Must(os.WriteFile(filepath.Join(d, "outside/dir/f"), []byte("outside secret\n"), 0o644))
		huge := rapid.IntRange(0, 99).Draw(t, "huge") == 0
		var es []entry
		for i := rapid.IntRange(0, 18).Draw(t, "entries"); i > 0; i-- {
			e := entryGen(t, len(es), huge)
			if !conflicts(es, e.path) {
				es = append(es, e)
			}
		}
		dots := rapid.Bool().Draw(t, "excludeDotFiles")

		// what is expected of each entry
		want := map[string]string{}    // indexed: path to content
		mustOut := map[string]bool{}   // must be listed as excluded
		either := map[string]string{}  // one or the other
		nothing := map[string]bool{}   // must not be seen at all
		var cls []string
		for _, e := range es {
			cls = append(cls, "entry:"+e.kind)
			parts := strings.Split(e.path, "/")
			skip := false
			for i, p := range parts {
				isDir := i < len(parts)-1 || e.kind == "dir"
				if special[p] || dots && p[0] == '.' && isDir {
					skip = true
				}
			}
			last := parts[len(parts)-1]
			switch {
			case skip:
				nothing[e.path] = true
				cls = append(cls, "inside a skipped directory or special")
			case e.kind == "dir":
			case dots && last[0] == '.':
				mustOut[e.path] = true
				cls = append(cls, "dot-file")
			case e.kind == "symlink" || e.kind == "fifo":
				mustOut[e.path] = true
			case mustExclude(e.data):
				mustOut[e.path] = true
			case mustIndex(e.data):
				want[e.path] = e.data
			default:
				either[e.path] = e.data
				cls = append(cls, "refused by size or shape, or late invalid UTF-8")
			}
		}

		r := hx.NewRemote("fake://c09", "r1", nil)
		r.SetWriter(func(dir string, _ hx.Tree) {
			for _, e := range es {
				full := filepath.Join(dir, e.path)
				hx.Must(os.MkdirAll(filepath.Dir(full), 0o755))
				switch e.kind {
				case "symlink":
					hx.Must(os.Symlink(strings.Replace(e.target, "@outside", filepath.Join(d, "outside"), 1), full))
				case "fifo":
					hx.Must(syscall.Mkfifo(full, 0o644))
				case "dir":
					hx.Must(os.MkdirAll(full, 0o755))
				default:
					hx.Must(os.WriteFile(full, []byte(e.data), 0o644))
				}
			}
		})
		repo := hx.FakeRepo(r.Url, false, false, 0)
		repo.ExcludeDotFiles = dots
		msg := config.SecretMessage(`{"special":[".git",".svn","vendor"]}`)
		repo.VcsConfigMessage = &msg
		db := filepath.Join(d, "db")
		hx.Must(os.Mkdir(db, 0o755))
		var s *searcher.Searcher
		var err error
		hx.Bounded(t, "indexing", func() { s, err = searcher.New(db, "repo", repo) })
		if err != nil {
			t.Fatalf("indexing failed: %v\nentries: %v", err, show(es))
		}
		check(t, s, es, want, mustOut, either, nothing)
		n := len(want)
		hx.Count(fmt.Sprintf("exclude-dot-files=%v %v", dots, show(es)), n > 0 && n < len(es), cls...)
	})
}

func check(t *rapid.T, s *searcher.Searcher, es []entry, want map[string]string, mustOut map[string]bool, either map[string]string, nothing map[string]bool) {
	res, err := s.Search("", &index.SearchOptions{})
	if err != nil {
		t.Fatalf("search failed: %v", err)
	}
	got := map[string]string{}
	for _, f := range res.Matches {
		var b strings.Builder
		for i, m := range f.Matches {
			if m.LineNumber != i+1 {
				t.Fatalf("%q: line %d follows line %d", f.Filename, m.LineNumber, i)
			}
			b.WriteString(m.Line + "\n")
		}
		got[f.Filename] = b.String()
	}
	var list []struct{ Filename, Reason string }
	if err := json.Unmarshal([]byte(s.GetExcludedFiles()), &list); err != nil {
		t.Fatalf("the exclusion list is not JSON: %v", err)
	}
	out := map[string]bool{}
	for _, x := range list {
		if out[x.Filename] {
			t.Fatalf("%q is listed as excluded twice\nentries: %v", x.Filename, show(es))
		}
		if x.Reason == "" {
			t.Fatalf("%q is excluded without a reason", x.Filename)
		}
		out[x.Filename] = true
	}
	same := func(p, data string) {
		g, ok := got[p]
		if data == "" {
			if ok {
				t.Fatalf("empty file %q has lines", p)
			}
			return
		}
		w := data
		if !strings.HasSuffix(w, "\n") {
			w += "\n"
		}
		if !ok {
			t.Fatalf("file %q (%s) is not searchable and not listed as excluded\nentries: %v", p, hx.Q(data), show(es))
		}
		if g != w {
			t.Fatalf("file %q: content %s, searchable as %s\nentries: %v", p, hx.Q(w), hx.Q(g), show(es))
		}
	}
	for p, data := range want {
		if out[p] {
			t.Fatalf("text file %q (%s) is excluded\nentries: %v", p, hx.Q(data), show(es))
		}
		same(p, data)
	}
	for p := range mustOut {
		if !out[p] {
			t.Fatalf("%q is not listed as excluded\nentries: %v", p, show(es))
		}
	}
	for p, data := range either {
		if !out[p] {
			same(p, data)
		}
	}
	for p := range got {
		_, w := want[p]
		_, e := either[p]
		if out[p] {
			t.Fatalf("%q is searchable and listed as excluded\nentries: %v", p, show(es))
		}
		if !w && !e {
			t.Fatalf("%q is searchable but should not be\nentries: %v", p, show(es))
		}
	}
	for p := range out {
		_, e := either[p]
		if !mustOut[p] && !e {
			t.Fatalf("%q is listed as excluded but should not be\nentries: %v", p, show(es))
		}
	}
	_ = nothing
}

func show(es []entry) string {
	var out []string
	for _, e := range es {
		out = append(out, fmt.Sprintf("%s %q %s%s", e.kind, e.path, e.target, hx.Q(e.data)))
	}
	sort.Strings(out)
	s := strings.Join(out, "; ")
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

// A socket cannot be made through WriteTree; one fixed case with every other
// kind of special file, and roots with unusual names.
func TestRoots(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		root := rapid.SampledFrom([]string{"src", ".src", ".git", "vendor", "x y", "é", "a/.hidden/b"}).Draw(t, "root")
		src := filepath.Join(d, root)
		hx.Must(os.MkdirAll(src, 0o755))
		tr := hx.TreeGen(4, 4).Draw(t, "tree")
		tr.AddPath("always", "foo\n")
		hx.WriteTree(src, tr)
		sock := false
		if l, err := net.Listen("unix", filepath.Join(src, "sock")); err == nil {
			defer l.Close()
			sock = true
		}
		// reach it through links
		via := src
		links := rapid.IntRange(0, 3).Draw(t, "links")
		for i := 0; i < links; i++ {
			l := filepath.Join(d, fmt.Sprintf("l%d", i))
			target := via
			if rapid.Bool().Draw(t, "relative") {
				target, _ = filepath.Rel(d, via)
			}
			hx.Must(os.Symlink(target, l))
			via = l
		}
		dst := filepath.Join(d, "idx")
		opt := &index.IndexOptions{ExcludeDotFiles: rapid.Bool().Draw(t, "dots"), SpecialFiles: []string{".git", "vendor"}}
		ref, err := index.Build(opt, dst, via, "u", "r")
		if err != nil {
			t.Fatalf("build of %q through %d links failed: %v", root, links, err)
		}
		ix, err := ref.Open()
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		defer ix.Close()
		re, _ := hx.ParseRef("(?m)")
		res, err := ix.Search("", &index.SearchOptions{})
		if err != nil {
			t.Fatalf("search: %v", err)
		}
		got, _ := hx.Got(res)
		if diff := hx.Diff(hx.RefSearch(tr, re, 0), got, false); diff != "" {
			t.Fatalf("root %q through %d links: %s", root, links, diff)
		}
		cls := []string{"root"}
		if links > 0 {
			cls = append(cls, "root through links")
		}
		if sock {
			cls = append(cls, "with a socket")
		}
		hx.Count(fmt.Sprintf("root=%q links=%d tree=%v", root, links, tr), true, cls...)
	})
}
