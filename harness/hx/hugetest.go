package hx

import (
	"fmt"
	"regexp"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
)

// CheckHuge indexes a huge file next to small ones and compares searches with
// up to ctx lines of context with what the lines say.
func CheckHuge(t *rapid.T, ctx int) {
	tr := Tree{}
	tr.AddPath("huge", Huge(t))
	tr.AddPath("a", "needle 1\nshort\n")
	tr.AddPath("z", "before\n\nneedle 5\nz")
	if rapid.Bool().Draw(t, "second") {
		tr.AddPath("huge2", Huge(t))
	}
	ix, _, done := BuildIndex(t, tr, &index.IndexOptions{})
	defer done()
	for i := rapid.IntRange(2, 4).Draw(t, "queries"); i > 0; i-- {
		pat := rapid.SampledFrom(HugePatterns).Draw(t, "pat")
		n := 0
		if ctx > 0 {
			n = rapid.IntRange(0, ctx).Draw(t, "n")
		}
		want := Want{}
		for p, data := range tr {
			if hs := HugeHits(data, regexp.MustCompile("(?m)"+pat), n); len(hs) > 0 {
				want[p] = hs
			}
		}
		var res *index.SearchResponse
		var err error
		Bounded(t, fmt.Sprintf("search %q", pat), func() {
			res, err = ix.Search(pat, &index.SearchOptions{LinesOfContext: uint(n)})
		})
		if err != nil {
			t.Fatalf("search %q in a file of %d bytes failed: %v", pat, len(tr["huge"]), err)
		}
		got, _ := Got(res)
		if d := Diff(want, got, ctx > 0); d != "" {
			t.Fatalf("search %q with %d lines of context in a file of %d bytes: %s", pat, n, len(tr["huge"]), d)
		}
		Count(fmt.Sprintf("pat=%q n=%d file of %d bytes", pat, n, len(tr["huge"])), len(want) > 0, "file of 2 to 32 MiB")
	}
}
