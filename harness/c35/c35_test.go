// C35: the index is used: a search reads only files that can match. Generated
// expressions with known necessary trigrams on generated trees, from which the
// copies of all other files are taken away.
package c35

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// An expr is an expression together with what a text has to have to match it.
type expr struct {
	pat  string
	need func(text string) bool
}

// words have letters without foldings beyond ASCII
var words = []string{"foo", "bar", "xyz", "func", "return", "index", "Handler", "abcdef", "fooBar", "t_t", "a.b", "f(x", "0x1", "  if", "über", "naïve", "日本語", "main.go", "qux", "oof", "oba", "rfo"}

// word is one of the words, or several of them without anything between them.
func word(t *rapid.T) string {
	w := rapid.SampledFrom(words).Draw(t, "word")
	if rapid.IntRange(0, 5).Draw(t, "long") == 0 {
		for n := rapid.IntRange(1, 12).Draw(t, "more"); n > 0; n-- {
			w += rapid.SampledFrom(words).Draw(t, "word")
		}
	}
	return w
}

func lit(w string, icase, literal bool) expr {
	pat := w
	if !literal {
		pat = regexp.QuoteMeta(w)
	}
	return expr{pat, func(text string) bool {
		if icase {
			w, text = strings.ToLower(w), strings.ToLower(text)
		}
		for i := 0; i+3 <= len(w); i++ {
			if !strings.Contains(text, w[i:i+3]) {
				return false
			}
		}
		return true
	}}
}

func gen(t *rapid.T, depth int, icase bool) expr {
	k := rapid.IntRange(0, 9).Draw(t, "op")
	if depth == 0 || icase && (k == 3 || k == 4) {
		// the trigrams of all cases of alternatives are too many to be kept
		k = 0
	}
	both := func(sep string) expr {
		a, b := gen(t, depth-1, icase), gen(t, depth-1, icase)
		return expr{a.pat + sep + b.pat, func(s string) bool { return a.need(s) && b.need(s) }}
	}
	one := func(before, after string) expr {
		a := gen(t, depth-1, icase)
		return expr{before + a.pat + after, a.need}
	}
	switch k {
	case 0, 1:
		return lit(word(t), icase, false)
	case 2:
		return both(rapid.SampledFrom([]string{".*", " ", "", ".", "[^;]+", `\s*`, "x?", `\b`}).Draw(t, "between"))
	case 3, 4:
		// what longer alternatives need besides their beginnings is not kept
		// (nor what follows a common beginning)
		a := gen(t, 0, icase)
		b := gen(t, 0, icase)
		if a.pat[0] == b.pat[0] {
			return a
		}
		return expr{"(" + a.pat + "|" + b.pat + ")", func(s string) bool { return a.need(s) || b.need(s) }}
	case 5:
		return one("(?:", ")+")
	case 6:
		return one("(", rapid.SampledFrom([]string{"){2}", "){1,3}", ")"}).Draw(t, "rep"))
	case 7:
		return one(rapid.SampledFrom([]string{"^", `\b`, ".*", "[a-z]*", `^\s*`, "(?:foo)?", "q?"}).Draw(t, "before"), "")
	case 8:
		return one("", rapid.SampledFrom([]string{"$", `\b`, ".*", "[a-z0-9]*", "(?:x|bar)?", "s?$"}).Draw(t, "after"))
	default:
		return one("", `\(.*\)`)
	}
}

func tree(t *rapid.T) hx.Tree {
	tr := hx.Tree{}
	for i := rapid.IntRange(1, 12).Draw(t, "files"); i > 0; i-- {
		var b strings.Builder
		some := rapid.SliceOfN(rapid.Custom(word), 1, 5).Draw(t, "some")
		for n := rapid.IntRange(1, 8).Draw(t, "tokens"); n > 0; n-- {
			w := rapid.SampledFrom(some).Draw(t, "w")
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				w = strings.ToUpper(w)
			case 1:
				w = w[:len(w)-1] + "?"
				w = strings.ToValidUTF8(w, "?")
			case 2:
				w += rapid.SampledFrom(some).Draw(t, "w2")
			case 3:
				w += "(x)"
			}
			b.WriteString(w + rapid.SampledFrom([]string{" ", "\n", "\n", "", "; "}).Draw(t, "sep"))
		}
		tr[fmt.Sprintf("%s%d.%s", rapid.SampledFrom([]string{"a/", "", "b/c/"}).Draw(t, "dir"), i, rapid.SampledFrom([]string{"go", "txt"}).Draw(t, "ext"))] = b.String()
	}
	return tr
}

func TestOpened(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := tree(t)
		ix, dir, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		raw := filepath.Join(dir, "raw")
		away := filepath.Join(filepath.Dir(dir), "away")
		hx.Must(os.MkdirAll(away, 0o755))
		var names []string
		for n, s := range tr {
			if s != "" {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		flat := func(r *index.SearchResponse) string {
			b, err := json.Marshal(r)
			hx.Must(err)
			return string(b)
		}
		for q := rapid.IntRange(1, 6).Draw(t, "searches"); q > 0; q-- {
			opt := &index.SearchOptions{IgnoreCase: rapid.Bool().Draw(t, "icase"), LinesOfContext: 1}
			var e expr
			if opt.LiteralSearch = rapid.IntRange(0, 2).Draw(t, "literal") == 0; opt.LiteralSearch {
				e = lit(word(t)+rapid.SampledFrom(append(words, "", "", "(", ".*")).Draw(t, "word"), opt.IgnoreCase, true)
			} else {
				e = gen(t, rapid.IntRange(0, 3).Draw(t, "depth"), opt.IgnoreCase)
			}
			if rapid.IntRange(0, 3).Draw(t, "filter") == 0 {
				opt.FileRegexp = rapid.SampledFrom([]string{`\.go$`, "^a/", "1"}).Draw(t, "files")
			}
			if rapid.IntRange(0, 3).Draw(t, "exclude") == 0 {
				opt.ExcludeFileRegexp = rapid.SampledFrom([]string{`\.go$`, "^b/", "2"}).Draw(t, "exclude files")
			}
			what := fmt.Sprintf("search %q %+v", e.pat, *opt)
			search := func() (r *index.SearchResponse, err error) {
				hx.Bounded(t, what, func() { r, err = ix.Search(e.pat, opt) })
				return
			}
			before, err := search()
			if err != nil {
				t.Fatalf("%s: %v", what, err)
			}
			var can, cannot []string
			for _, n := range names {
				if e.need(tr[n]) && (opt.FileRegexp == "" || regexp.MustCompile(opt.FileRegexp).MatchString(n)) &&
					(opt.ExcludeFileRegexp == "" || !regexp.MustCompile(opt.ExcludeFileRegexp).MatchString(n)) {
					can = append(can, n)
				} else {
					cannot = append(cannot, n)
				}
			}
			if n := before.FilesOpened; n > len(can) || n < len(before.Matches) {
				t.Fatalf("%s opens %d files, at most %d can match: %q, and %d do\ntree: %v", what, n, len(can), can, len(before.Matches), tr)
			}
			for i, n := range cannot {
				hx.Must(os.Rename(filepath.Join(raw, n), filepath.Join(away, fmt.Sprint(i))))
			}
			after, err := search()
			for i, n := range cannot {
				hx.Must(os.Rename(filepath.Join(away, fmt.Sprint(i)), filepath.Join(raw, n)))
			}
			if err != nil {
				t.Fatalf("%s reads a file that cannot match: %v\nthose that can: %q\ntree: %v", what, err, can, tr)
			}
			if flat(before) != flat(after) {
				t.Fatalf("%s without the files that cannot match %q:\n%s\nwith them:\n%s", what, cannot, flat(after), flat(before))
			}
			hx.Count(what+" "+tr.String(), len(cannot) > 0 && len(can) > 0)
			hx.Class("files that cannot match", int64(len(cannot)))
			hx.Class("files that can", int64(len(can)))
			hx.Class("files that do", int64(len(before.Matches)))
		}
	})
}
