// C03: path filters. The filtered response is compared with the unfiltered one
// restricted by Go's regexp engine on the repository-relative path.
package c03

import (
	"fmt"
	"testing"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func filterGen(t *rapid.T, paths []string) string {
	switch rapid.IntRange(0, 9).Draw(t, "fk") {
	case 0:
		return ""
	case 1, 2:
		return rapid.SampledFrom([]string{`\.go$`, "^a", "^a/", "foo", "/", "main", "$", "^", "(?i)bar", "(?i)k", ".", "^[^/]*$", "a|b", `^(a|b)/`, "é", "日本", "x y", `\bfoo\b`, `_test\.go$`, ".*", "q'\"", "^$", "(?s)^.*$", "(?m)^foo$", `\.txt|\.md`}).Draw(t, "filter")
	case 3:
		if len(paths) > 0 {
			return "^" + hx.QuoteRe(rapid.SampledFrom(paths).Draw(t, "path")) + "$"
		}
		return "foo"
	default:
		return hx.PatternGenAll(paths).Draw(t, "fpat")
	}
}

func TestFilter(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.TreeGen(14, 3).Draw(t, "tree")
		if rapid.IntRange(0, 5).Draw(t, "nlname") == 0 {
			tr.AddPath(rapid.SampledFrom([]string{"x\nfoo", "\nfoo", "a\n", "foo\n/bar", "\n"}).Draw(t, "nl"), "foo\n")
		}
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		lines, paths := tr.AllLines(), tr.Paths()
		for i := rapid.IntRange(1, 16).Draw(t, "queries"); i > 0; i-- {
			pat := rapid.OneOf(rapid.SampledFrom([]string{"", "foo", ".", "a", "^"}), hx.PatternGen(lines)).Draw(t, "pat")
			ic := rapid.Bool().Draw(t, "icase")
			n := rapid.IntRange(0, 2).Draw(t, "ctx")
			full, err := ix.Search(pat, &index.SearchOptions{IgnoreCase: ic, LinesOfContext: uint(n)})
			if err != nil {
				t.Fatalf("search %q failed: %v", pat, err)
			}
			inc, exc := filterGen(t, paths), filterGen(t, paths)
			if rapid.Bool().Draw(t, "one") {
				if rapid.Bool().Draw(t, "which") {
					inc = ""
				} else {
					exc = ""
				}
			}
			want, all := hx.Want{}, hx.Want{}
			sound := true
			nFiles, dropInc, dropExc := 0, 0, 0
			for _, fm := range full.Matches {
				keep := true
				if inc != "" {
					m, ok, err := hx.MatchName(inc, fm.Filename)
					sound = sound && ok && err == nil
					if !m {
						keep = false
						dropInc++
					}
				}
				if exc != "" {
					m, ok, err := hx.MatchName(exc, fm.Filename)
					sound = sound && ok && err == nil
					if m {
						keep = false
						dropExc++
					}
				}
				var hs []hx.Hit
				for _, m := range fm.Matches {
					hs = append(hs, hx.Hit{No: m.LineNumber, Line: m.Line, Before: m.Before, After: m.After})
				}
				all[fm.Filename] = hs
				if keep {
					nFiles++
					want[fm.Filename] = hs
				}
			}
			if !sound {
				continue
			}
			var res *index.SearchResponse
			hx.Bounded(t, fmt.Sprintf("search %q files %q exclude %q", pat, inc, exc), func() {
				res, err = ix.Search(pat, &index.SearchOptions{IgnoreCase: ic, LinesOfContext: uint(n), FileRegexp: inc, ExcludeFileRegexp: exc})
			})
			if err != nil {
				t.Fatalf("search %q files %q exclude %q failed: %v", pat, inc, exc, err)
			}
			got, _ := hx.Got(res)
			if d := hx.Diff(want, got, true); d != "" {
				t.Fatalf("search %q with files %q, excludeFiles %q: %s\ntree: %v", pat, inc, exc, d, tr)
			}
			if res.FilesWithMatch != nFiles {
				t.Fatalf("search %q with files %q, excludeFiles %q: FilesWithMatch %d, want %d\ntree: %v", pat, inc, exc, res.FilesWithMatch, nFiles, tr)
			}
			cls := []string{}
			if inc != "" {
				cls = append(cls, "files")
			}
			if exc != "" {
				cls = append(cls, "excludeFiles")
			}
			if inc != "" && exc != "" {
				cls = append(cls, "both")
			}
			hx.Count(fmt.Sprintf("pat=%q files=%q excl=%q names=%q", pat, inc, exc, paths), nFiles > 0 && nFiles < len(all), cls...)
		}
	})
}
