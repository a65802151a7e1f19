// C02: context lines. Generated texts, patterns and context sizes, against the
// definition (the file's own neighbouring lines) computed from the original.
package c02

import (
	"fmt"
	"strings"
	"testing"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// sparse makes a file of many short lines, few of which match.
func sparse(t *rapid.T) string {
	n := rapid.IntRange(1, 60).Draw(t, "lines")
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 7).Draw(t, "k") {
		case 0:
			b.WriteString("foo needle")
		case 1, 2:
		case 3:
			b.WriteString("\r")
		default:
			fmt.Fprintf(&b, "line %d", i)
		}
		if i < n-1 || rapid.Bool().Draw(t, "final") {
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func ctxGen(t *rapid.T) int {
	switch rapid.IntRange(0, 9).Draw(t, "cls") {
	case 0:
		return 0
	case 1, 2, 3:
		return rapid.IntRange(1, 3).Draw(t, "n")
	case 4:
		return rapid.IntRange(20, 500).Draw(t, "n")
	default:
		return rapid.IntRange(1, 20).Draw(t, "n")
	}
}

func TestContext(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.TreeGen(4, 30).Draw(t, "tree")
		for i := rapid.IntRange(0, 3).Draw(t, "sparse"); i > 0; i-- {
			tr.AddPath(fmt.Sprintf("s%d", i), sparse(t))
		}
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		lines := tr.AllLines()
		for i := rapid.IntRange(1, 10).Draw(t, "queries"); i > 0; i-- {
			pat := rapid.OneOf(hx.PatternGen(lines), rapid.SampledFrom([]string{"needle", "^$", "^", "foo", `^\s*$`, "line .*[05]$", "$"})).Draw(t, "pat")
			ref, err := hx.ParseRef("(?m)" + pat)
			if err != nil {
				continue
			}
			n := ctxGen(t)
			want := hx.RefSearch(tr, ref, n)
			var res *index.SearchResponse
			hx.Bounded(t, fmt.Sprintf("search %q", pat), func() {
				res, err = ix.Search(pat, &index.SearchOptions{LinesOfContext: uint(n)})
			})
			if err != nil {
				t.Fatalf("search %q failed: %v", pat, err)
			}
			got, _ := hx.Got(res)
			if d := hx.Diff(want, got, true); d != "" {
				t.Fatalf("search %q with %d lines of context: %s\ntree: %v", pat, n, d, tr)
			}
			var cls []string
			adjacent, gap, start, end, blank := false, false, false, false, false
			for p, hs := range want {
				total := len(hx.Lines(tr[p]))
				for j, h := range hs {
					if j > 0 && hs[j-1].No == h.No-1 {
						adjacent = true
					}
					if j > 0 && h.No-hs[j-1].No <= 2*n && h.No-hs[j-1].No > 1 {
						gap = true
					}
					if h.No-1 < n {
						start = true
					}
					if total-h.No < n {
						end = true
					}
					for _, l := range append(append([]string{}, h.Before...), h.After...) {
						if l == "" {
							blank = true
						}
					}
				}
			}
			for k, v := range map[string]bool{"adjacent-matches": adjacent, "overlapping-contexts": gap, "cut-at-start": start, "cut-at-end": end, "blank-context-line": blank} {
				if v {
					cls = append(cls, k)
				}
			}
			hx.Count(fmt.Sprintf("pat=%q n=%d tree=%v", pat, n, tr), n > 0 && (adjacent || gap || start || end || blank), cls...)
		}
	})
}

// TestHuge: files up to the largest that are indexed.
func TestHuge(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) { hx.CheckHuge(t, 60) })
}
