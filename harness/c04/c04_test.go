// C04: paging. Every page is compared with the slice of the unlimited response.
package c04

import (
	"fmt"
	"testing"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func show(fs []*index.FileMatch) string {
	s := ""
	for _, f := range fs {
		s += fmt.Sprintf("%q:", f.Filename)
		for _, m := range f.Matches {
			s += fmt.Sprintf(" %d", m.LineNumber)
		}
		s += "; "
	}
	return s
}

// first cuts a list after m matches (m <= 0: no cut).
func first(fs []*index.FileMatch, m int) []*index.FileMatch {
	if m <= 0 {
		return fs
	}
	var out []*index.FileMatch
	for _, f := range fs {
		if m == 0 {
			break
		}
		c := *f
		if len(c.Matches) > m {
			c.Matches = c.Matches[:m]
		}
		m -= len(c.Matches)
		out = append(out, &c)
	}
	return out
}

func same(a, b []*index.FileMatch) bool {
	if len(a) != len(b) {
		return false
	}
	return len(a) == 0 || hx.Same(a, b)
}

func TestPaging(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.TreeGen(14, 8).Draw(t, "tree")
		for i := rapid.IntRange(0, 8).Draw(t, "extra"); i > 0; i-- {
			tr.AddPath(fmt.Sprintf("p%d", i), hx.TextGen(4).Draw(t, "x")+"foo\n")
		}
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{AutoGeneratedFiles: []string{"p1", "a"}})
		defer done()
		lines := tr.AllLines()
		for q := rapid.IntRange(1, 5).Draw(t, "queries"); q > 0; q-- {
			base := index.SearchOptions{
				IgnoreCase:     rapid.Bool().Draw(t, "icase"),
				LinesOfContext: uint(rapid.IntRange(0, 2).Draw(t, "ctx")),
			}
			if rapid.IntRange(0, 3).Draw(t, "filtered") == 0 {
				base.FileRegexp = rapid.SampledFrom([]string{"a", "p", `\.go$`, "[0-5]$"}).Draw(t, "files")
			}
			pat := rapid.OneOf(rapid.SampledFrom([]string{"", "foo", ".", "a|b", "a", "^$"}), hx.PatternGen(lines)).Draw(t, "pat")
			run := func(off, lim, max int) *index.SearchResponse {
				o := base
				o.Offset, o.Limit, o.MaxResults = off, lim, max
				res, err := ix.Search(pat, &o)
				if err != nil {
					t.Fatalf("search %q failed: %v", pat, err)
				}
				return res
			}
			full := run(0, 0, 0)
			nf := len(full.Matches)
			nm := 0
			for _, f := range full.Matches {
				nm += len(f.Matches)
				if len(f.Matches) == 0 {
					t.Fatalf("search %q lists %q without matches", pat, f.Filename)
				}
			}
			if full.FilesWithMatch != nf {
				t.Fatalf("search %q: FilesWithMatch %d but %d files\ntree: %v", pat, full.FilesWithMatch, nf, tr)
			}
			for k := rapid.IntRange(1, 8).Draw(t, "pages"); k > 0; k-- {
				kind := rapid.IntRange(0, 3).Draw(t, "kind")
				off := rapid.IntRange(0, nf+2).Draw(t, "off")
				lim := rapid.IntRange(0, nf+2).Draw(t, "lim")
				max := 0
				if kind == 1 {
					off, lim = 0, 0
				}
				if kind == 1 || kind == 2 {
					max = rapid.IntRange(-3, nm+2).Draw(t, "max")
				}
				want := full.Matches
				if off > len(want) {
					want = nil
				} else {
					want = want[off:]
				}
				if lim > 0 && lim < len(want) {
					want = want[:lim]
				}
				page := len(want)
				want = first(want, max)
				res := run(off, lim, max)
				if !same(want, res.Matches) {
					t.Fatalf("search %q offset %d limit %d max %d:\nwant %s\ngot  %s\nfull %s\ntree: %v", pat, off, lim, max, show(want), show(res.Matches), show(full.Matches), tr)
				}
				if max <= 0 && res.FilesWithMatch != nf {
					t.Fatalf("search %q offset %d limit %d: FilesWithMatch %d, want %d", pat, off, lim, res.FilesWithMatch, nf)
				}
				cls := []string{"page"}
				if max > 0 {
					cls = []string{"max-results"}
					if off > 0 || lim > 0 {
						cls = append(cls, "max-results-within-page")
					}
				}
				hx.Count(fmt.Sprintf("pat=%q off=%d lim=%d max=%d full=%s", pat, off, lim, max, show(full.Matches)),
					page > 0 && (page < nf || max > 0 && max < nm), cls...)
			}
			// consecutive pages concatenate
			step := rapid.IntRange(1, nf+1).Draw(t, "step")
			var cat []*index.FileMatch
			for off := 0; ; off += step {
				r := run(off, step, 0)
				cat = append(cat, r.Matches...)
				if len(r.Matches) < step {
					break
				}
			}
			if !same(full.Matches, cat) {
				t.Fatalf("search %q in pages of %d:\nwant %s\ngot  %s", pat, step, show(full.Matches), show(cat))
			}
			hx.Count(fmt.Sprintf("pat=%q pages of %d full=%s", pat, step, show(full.Matches)), nf > step, "all-pages")
		}
	})
}
