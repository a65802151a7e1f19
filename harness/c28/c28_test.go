// C28: the command-line client prints every match once, at its true line number.
// C29: it sends what was asked and reports failures faithfully.
package c28

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"unsafe"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// oline is one line of a file as it is to be printed.
type oline struct {
	text  string
	match bool
	group int // windows that share a line share a group
}

// ofile is what has to be printed of a file.
type ofile map[int]oline

// want computes it from the response.
func want(f *index.FileMatch) ofile {
	o := ofile{}
	group, end := 0, -1
	for _, m := range f.Matches {
		if m.LineNumber-len(m.Before) > end {
			group++
		}
		put := func(n int, text string, match bool) {
			if old, ok := o[n]; ok {
				match = match || old.match
			}
			o[n] = oline{text, match, group}
			end = max(end, n)
		}
		for i, l := range m.Before {
			put(m.LineNumber-len(m.Before)+i, l, false)
		}
		put(m.LineNumber, m.Line, true)
		for i, l := range m.After {
			put(m.LineNumber+1+i, l, false)
		}
	}
	return o
}

var (
	esc    = regexp.MustCompile("\x1b\\[[0-9;]*m")
	lineRe = regexp.MustCompile(`^([0-9]+)([:-])(.*)$`)
)

const reset = "\x1b[0m"

// marked splits a coloured line into the pieces that are coloured and returns
// the line without the colours.
func marked(s string) (plain string, pieces []string, err error) {
	for s != "" {
		i := esc.FindStringIndex(s)
		if i == nil {
			return plain + s, pieces, nil
		}
		plain += s[:i[0]]
		s = s[i[1]:]
		j := strings.Index(s, reset)
		if j < 0 {
			return "", nil, fmt.Errorf("a colour is never reset in %q", s)
		}
		if k := esc.FindStringIndex(s[:j]); k != nil {
			return "", nil, fmt.Errorf("a colour within a colour in %q", s)
		}
		plain += s[:j]
		pieces = append(pieces, s[:j])
		s = s[j+len(reset):]
	}
	return plain, pieces, nil
}

// pty opens a terminal whose output is given as it was written.
func pty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
			return e
		}
		return nil
	}
	var n, zero uint32
	if err = ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err == nil {
		err = ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	if err == nil {
		slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		var tio syscall.Termios
		if err = ioctl(slave, syscall.TCGETS, unsafe.Pointer(&tio)); err == nil {
			tio.Oflag &^= syscall.OPOST
			tio.Lflag &^= syscall.ECHO | syscall.ICANON
			err = ioctl(slave, syscall.TCSETS, unsafe.Pointer(&tio))
		}
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// endMark is written after all output, as what is still in a terminal when it
// is closed can get lost.
const endMark = "\x04\x04end\x04\x04"

// readAll reads up to the end mark.
func readAll(master *os.File) chan string {
	out := make(chan string, 1)
	go func() {
		var b []byte
		buf := make([]byte, 4096)
		for !bytes.HasSuffix(b, []byte(endMark)) {
			n, err := master.Read(buf)
			b = append(b, buf[:n]...)
			if err != nil {
				return // a panic has closed the terminal
			}
		}
		out <- strings.TrimSuffix(string(b), endMark)
	}()
	return out
}

// present returns what the presenter writes.
func present(t hx.TB, d string, re *regexp.Regexp, ctx int, repos map[string]*config.Repo, res *client.Response, tty bool) string {
	if tty {
		master, slave, err := pty()
		if err != nil {
			hx.Env("no terminal: %v", err)
		}
		out := readAll(master)
		defer master.Close()
		defer slave.Close()
		hx.Bounded(t, "Present", func() { err = client.NewAckPresenter(slave).Present(re, ctx, repos, res) })
		io.WriteString(slave, endMark)
		s := <-out
		if err != nil {
			t.Fatalf("Present: %v", err)
		}
		return s
	}
	f, err := os.Create(filepath.Join(d, "out"))
	hx.Must(err)
	defer f.Close()
	hx.Bounded(t, "Present", func() { err = client.NewAckPresenter(f).Present(re, ctx, repos, res) })
	if err != nil {
		t.Fatalf("Present: %v", err)
	}
	b, err := os.ReadFile(f.Name())
	hx.Must(err)
	return string(b)
}

// header is the line over the files of a repository; "" if it may be anything.
func header(repos map[string]*config.Repo, name string) string {
	r := repos[name]
	if r == nil {
		return name
	}
	if r.DisplayName != "" {
		return r.DisplayName
	}
	if m := regexp.MustCompile(`^https://[a-z.]+/([a-zA-Z]+)/([a-zA-Z0-9]+)(\.git)?$`).FindStringSubmatch(r.Url); m != nil {
		return m[1] + "/" + m[2]
	}
	return ""
}

// judge compares an output with the response. Lines of files are at their
// numbers; names of files begin with F.
func judge(out string, re *regexp.Regexp, repos map[string]*config.Repo, res *client.Response, colour bool) error {
	if !colour && strings.Contains(out, "\x1b") {
		return fmt.Errorf("escape sequences in plain output")
	}
	if out != "" && !strings.HasSuffix(out, "\n") {
		return fmt.Errorf("the last line is not ended")
	}
	lines := strings.Split(out, "\n")
	lines = lines[:len(lines)-1]
	// sections: repository header, then file sections
	type section struct {
		name string
		body []string
	}
	type repoOut struct {
		head  string
		files []*section
	}
	var all []*repoOut
	var cur *section
	for _, l := range lines {
		plain, _, err := marked(l)
		if err != nil {
			return err
		}
		switch {
		case lineRe.MatchString(plain) || plain == "--":
			if cur == nil {
				return fmt.Errorf("%q belongs to no file", l)
			}
			cur.body = append(cur.body, l)
		case plain == "":
			cur = nil
		case strings.HasPrefix(plain, "F"):
			if len(all) == 0 {
				return fmt.Errorf("%q belongs to no repository", l)
			}
			cur = &section{name: plain}
			r := all[len(all)-1]
			r.files = append(r.files, cur)
		default:
			all = append(all, &repoOut{head: plain})
			cur = nil
		}
	}
	if len(all) != len(res.Results) {
		return fmt.Errorf("%d repositories are shown, want %d", len(all), len(res.Results))
	}
	left := map[string]bool{}
	for n := range res.Results {
		left[n] = true
	}
	pads := map[int]int{} // width of the number -> blanks after it
	for pass := 0; pass < 2; pass++ {
		for _, ro := range all {
			// the repository is known by its files, which name it
			name, files := "", map[string]*section{}
			for _, f := range ro.files {
				if files[f.name] != nil {
					return fmt.Errorf("file %q is shown twice", f.name)
				}
				files[f.name] = f
			}
			for n, r := range res.Results {
				ok := len(r.Matches) == len(files)
				for _, f := range r.Matches {
					ok = ok && files[f.Filename] != nil
				}
				if h := header(repos, n); ok && (h == "" || h == ro.head) {
					name = n
					if pass == 0 && left[n] {
						break
					}
				}
			}
			if name == "" {
				var fs []string
				for _, f := range ro.files {
					fs = append(fs, f.name)
				}
				return fmt.Errorf("the response has no repository %q with the files %q", ro.head, fs)
			}
			delete(left, name)
			for _, fm := range res.Results[name].Matches {
				if err := judgeFile(files[fm.Filename].body, fm, re, colour, pads, pass); err != nil {
					return fmt.Errorf("repository %q, file %q: %v", name, fm.Filename, err)
				}
			}
		}
	}
	if len(left) > 0 {
		return fmt.Errorf("not shown: %v", left)
	}
	return nil
}

func judgeFile(body []string, fm *index.FileMatch, re *regexp.Regexp, colour bool, pads map[int]int, pass int) error {
	w := want(fm)
	last, lastGroup := -1, -1
	split := true // a new block begins
	seen := 0
	for _, l := range body {
		plain, pieces, err := marked(l)
		if err != nil {
			return err
		}
		if plain == "--" {
			split = true
			continue
		}
		m := lineRe.FindStringSubmatch(plain)
		n, err := strconv.Atoi(m[1])
		if err != nil {
			return err
		}
		o, ok := w[n]
		if !ok {
			return fmt.Errorf("line %d is not in the response: %q", n, l)
		}
		if n <= last {
			return fmt.Errorf("line %d comes after line %d", n, last)
		}
		if !split && n != last+1 && len(body) > 0 && hasSeparators(body) {
			return fmt.Errorf("line %d follows line %d in one block", n, last)
		}
		if split && last >= 0 && o.group == lastGroup {
			return fmt.Errorf("the block is split before line %d", n)
		}
		if (m[2] == ":") != o.match {
			return fmt.Errorf("line %d is marked %q, matching: %v", n, m[2], o.match)
		}
		rest := m[3]
		blanks := strings.TrimLeft(strings.TrimSuffix(rest, o.text), " ")
		if !strings.HasSuffix(rest, o.text) || blanks != "" {
			return fmt.Errorf("line %d is shown as %q, want %q", n, rest, o.text)
		}
		k := len(rest) - len(o.text)
		if !strings.HasPrefix(o.text, " ") && o.text != "" {
			pads[len(m[1])] = k
		} else if p, ok := pads[len(m[1])]; ok && pass == 1 && p != k {
			return fmt.Errorf("line %d is shown as %q, want %q after %d blanks", n, rest, o.text, p)
		}
		if colour {
			if len(pieces) == 0 || pieces[0] != m[1] {
				return fmt.Errorf("line %d: the number is not coloured: %q", n, l)
			}
			var texts []string
			if o.match {
				texts = re.FindAllString(o.text, -1)
			}
			if a, b := full(pieces[1:]), full(texts); !hx.Same(a, b) {
				return fmt.Errorf("line %d: %q is coloured, want %q, in %q", n, a, b, l)
			}
			// the pieces are where they should be: each text in order, once
			if o.match {
				if got := spans(l); !hx.Same(got, shifted(re.FindAllStringIndex(o.text, -1), len(plain)-len(o.text))) {
					return fmt.Errorf("line %d: coloured at %v of %q", n, got, plain)
				}
			}
		}
		last, lastGroup = n, o.group
		split = false
		seen++
	}
	if seen != len(w) {
		return fmt.Errorf("%d lines are shown, want %d", seen, len(w))
	}
	return nil
}

// spans are the coloured places after the first one, without empty ones.
func spans(l string) (s [][]int) {
	pos, first := 0, true
	for l != "" {
		i := esc.FindStringIndex(l)
		if i == nil {
			break
		}
		pos += i[0]
		l = l[i[1]:]
		j := strings.Index(l, reset)
		if !first && j > 0 {
			s = append(s, []int{pos, pos + j})
		}
		first = false
		pos += j
		l = l[j+len(reset):]
	}
	return s
}

func shifted(in [][]int, by int) (s [][]int) {
	for _, x := range in {
		if x[0] < x[1] {
			s = append(s, []int{x[0] + by, x[1] + by})
		}
	}
	return s
}

func full(in []string) (s []string) {
	for _, x := range in {
		if x != "" {
			s = append(s, x)
		}
	}
	return s
}

func hasSeparators(body []string) bool {
	for _, l := range body {
		if p, _, _ := marked(l); p == "--" {
			return true
		}
	}
	return false
}

var contents = []string{"foo", "", " ", "  foo bar", "\tfoo", "foo foo", "xfoox", "--", "12:3", "7-8", ":", "-", "F1", "fo", "éfooé", "foo\u2028foo", "a\rb", "%d%s", "foo ", "\xff foo", "0", "~[31m"}

func genFile(t *rapid.T, name string, ctx int, plain bool) *index.FileMatch {
	f := &index.FileMatch{Filename: name}
	pool := rapid.SliceOfN(rapid.SampledFrom(contents), 1, 6).Draw(t, "contents")
	text := func(n int) string {
		s := pool[n*7%len(pool)]
		if n%3 == 0 {
			s += fmt.Sprint(n)
		}
		return s
	}
	lo := rapid.SampledFrom([]int{1, 1, 1, 5, 95, 99990, 999990}).Draw(t, "first line")
	n := rapid.IntRange(1, 30).Draw(t, "lines")
	hi := lo + n - 1 // the last line of the file
	if lo > 1 {
		lo -= 3
	}
	server := plain || rapid.IntRange(0, 2).Draw(t, "server") > 0
	density := rapid.IntRange(1, 6).Draw(t, "density")
	start := lo
	for i := lo; i <= hi; i++ {
		if rapid.IntRange(0, density).Draw(t, "match") != 0 {
			continue
		}
		from, to := max(lo, i-ctx), min(hi, i+ctx)
		if !server {
			// any window around the line that does not begin before the previous one
			from = rapid.IntRange(max(start, i-4), i).Draw(t, "from")
			to = rapid.IntRange(i, min(hi, i+4)).Draw(t, "to")
			start = from
		}
		m := &index.Match{Line: text(i), LineNumber: i}
		for k := from; k < i; k++ {
			m.Before = append(m.Before, text(k))
		}
		for k := i + 1; k <= to; k++ {
			m.After = append(m.After, text(k))
		}
		f.Matches = append(f.Matches, m)
	}
	return f
}

var patterns = []string{"foo", "(?i)FOO", "o+", "x*", "", "^", "$", "f(o)o|bar", "[^ ]+", "é?foo", "(?m)^foo$", ".", "\\d+", "-"}

func describe(res *client.Response) string {
	var s []string
	for n, r := range res.Results {
		for _, f := range r.Matches {
			l := fmt.Sprintf("%s %s:", n, f.Filename)
			for _, m := range f.Matches {
				l += fmt.Sprintf(" %d(-%d+%d)%q", m.LineNumber, len(m.Before), len(m.After), m.Line)
			}
			s = append(s, l)
		}
	}
	sort.Strings(s)
	return strings.Join(s, "; ")
}

func genRepos(t *rapid.T, names []string) map[string]*config.Repo {
	repos := map[string]*config.Repo{}
	for i, n := range names {
		switch rapid.IntRange(0, 3).Draw(t, "info") {
		case 0:
			repos[n] = &config.Repo{Url: fmt.Sprintf("https://h.example/Org/name%d%s", i, rapid.SampledFrom([]string{"", ".git"}).Draw(t, "git"))}
		case 1:
			repos[n] = &config.Repo{Url: "https://h.example/Org/x", DisplayName: fmt.Sprintf("Display %d", i)}
		case 2:
			repos[n] = &config.Repo{Url: rapid.SampledFrom([]string{"/foo", "foo", "a/b", "//", "//x", "a//b", "git@h:o/r.git", ".git", "/.git", "file:///x/y", "x", "é/é"}).Draw(t, "url")}
		}
	}
	return repos
}

func testPresent(t *testing.T, tty bool) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		re := regexp.MustCompile(rapid.SampledFrom(patterns).Draw(t, "pattern"))
		ctx := rapid.IntRange(0, 4).Draw(t, "ctx")
		res := &client.Response{Results: map[string]*index.SearchResponse{}}
		names := []string{"r0", "r1/x", "r 2"}[:rapid.IntRange(1, 3).Draw(t, "repos")]
		lines, merged, k := 0, 0, 0
		for i, n := range names {
			r := &index.SearchResponse{Revision: "abc"}
			for j := rapid.IntRange(1, 3).Draw(t, "files"); j > 0; j-- {
				f := genFile(t, fmt.Sprintf("F%d/%s%d.go", i, rapid.SampledFrom([]string{"x", "é x", "a:b", "%s"}).Draw(t, "file"), j), ctx, false)
				if len(f.Matches) == 0 {
					continue
				}
				r.Matches = append(r.Matches, f)
				w := want(f)
				lines += len(w)
				for _, m := range f.Matches {
					k += 1 + len(m.Before) + len(m.After)
				}
				merged = k - lines
			}
			if len(r.Matches) > 0 || i == 0 {
				res.Results[n] = r
			}
		}
		repos := genRepos(t, names)
		out := present(t, d, re, ctx, repos, res, tty)
		if err := judge(out, re, repos, res, tty); err != nil {
			t.Fatalf("pattern %q, context %d: %v\nresponse: %s\noutput: %q", re, ctx, err, describe(res), out)
		}
		hx.Count(fmt.Sprintf("pattern %q, context %d: %s", re, ctx, describe(res)), merged > 0)
		hx.Class("lines to be shown", int64(lines))
		hx.Class("lines shared by several matches", int64(merged))
	})
}

func TestPresent(t *testing.T)   { testPresent(t, false) }
func TestHighlight(t *testing.T) { testPresent(t, true) }
