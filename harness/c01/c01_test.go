// C01: search is exact. Generated trees and patterns, against a reference that
// matches every line of the original files with a set-of-positions walk of the
// syntax tree.
package c01

import (
	"fmt"
	"strings"
	"testing"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

// big makes a file beyond the 1 MiB read buffer, with a few distinct lines.
func big(t *rapid.T) string {
	line := strings.Repeat(hx.LineGen().Draw(t, "filler")+"filler ", 60)
	size := rapid.SampledFrom([]int{1<<20 - 1, 1 << 20, 1<<20 + 1, 2<<20 - 3, 2 << 20, 2<<20 + 5}).Draw(t, "size")
	var b strings.Builder
	mark := rapid.IntRange(0, size).Draw(t, "mark")
	put := false
	for b.Len()+len(line)+1 < size {
		if !put && b.Len() >= mark {
			b.WriteString(hx.LineGen().Draw(t, "needle") + "needle\n")
			put = true
		}
		b.WriteString(line + "\n")
	}
	for b.Len() < size {
		b.WriteByte('z')
	}
	return b.String()[:size]
}

func TestExact(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.TreeGen(8, 14).Draw(t, "tree")
		isBig := rapid.IntRange(0, 24).Draw(t, "withBig") == 0
		if isBig {
			tr.AddPath("big", strings.ToValidUTF8(big(t), "?"))
		}
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		lines := tr.AllLines()
		n := rapid.IntRange(1, 14).Draw(t, "queries")
		for i := 0; i < n; i++ {
			pat := hx.PatternGenAll(lines).Draw(t, "pat")
			ic := rapid.IntRange(0, 2).Draw(t, "icase") == 0
			full := "(?m)" + pat
			if ic {
				full = "(?i)(?m)" + pat
			}
			ref, err := hx.ParseRef(full)
			if err != nil {
				continue
			}
			want := hx.RefSearch(tr, ref, 0)
			var res *index.SearchResponse
			hx.Bounded(t, fmt.Sprintf("search %q", pat), func() {
				res, err = ix.Search(pat, &index.SearchOptions{IgnoreCase: ic})
			})
			if err != nil {
				t.Fatalf("search %q (ignore case %v) failed: %v\ntree: %v", pat, ic, err, tr)
			}
			got, dup := hx.Got(res)
			if dup != "" {
				t.Fatalf("search %q lists file %q twice\ntree: %v", pat, dup, tr)
			}
			d := hx.Diff(want, got, false)
			if d != "" && ref.HasBeginText() && hx.Listed("C01", "bot-after-match") {
				known := hx.Want{}
				for p, data := range tr {
					if hs := ref.MatchTextKnown(data, 0); len(hs) > 0 {
						known[p] = hs
					}
				}
				if hx.Diff(known, got, false) == "" {
					hx.Known("bot-after-match")
					hx.Count("", false, "known finding: begin-of-text anchor after a match")
					continue
				}
			}
			if d != "" {
				t.Fatalf("search %q (ignore case %v): %s\ntree: %v", pat, ic, d, tr)
			}
			if res.FilesWithMatch != len(want) {
				t.Fatalf("search %q: FilesWithMatch=%d, %d files match\ntree: %v", pat, res.FilesWithMatch, len(want), tr)
			}
			hits := want.NumHits()
			total := 0
			for _, d := range tr {
				total += len(hx.Lines(d))
			}
			cls := []string{fmt.Sprintf("hits:%s", bucket(hits))}
			if ic {
				cls = append(cls, "ignore-case")
			}
			if isBig {
				cls = append(cls, "file>=1MiB")
			}
			if res.FilesOpened < len(tr) {
				cls = append(cls, "trigram-filter-excluded-a-file")
			}
			key := fmt.Sprintf("pat=%q icase=%v tree=%v", pat, ic, tr)
			hx.Count(key, hits > 0 && hits < total, cls...)
		}
	})
}

func bucket(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 5:
		return "1-4"
	default:
		return "5+"
	}
}

// TestHuge: files up to the largest that are indexed.
func TestHuge(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) { hx.CheckHuge(t, 0) })
}
