// C05: literal and ignore-case search, against strings.Contains and its
// case-folding counterpart on every line of the original files.
package c05

import (
	"fmt"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

const meta = `\.+*?()|[]{}^$#-&~ /'"` + "`"

func literalGen(t *rapid.T, lines []string) string {
	k := rapid.IntRange(0, 9).Draw(t, "lk")
	if k < 6 && len(lines) > 0 {
		rs := []rune(rapid.SampledFrom(lines).Draw(t, "line"))
		if len(rs) > 0 {
			lo := rapid.IntRange(0, len(rs)-1).Draw(t, "lo")
			hi := rapid.IntRange(lo, min(len(rs), lo+12)).Draw(t, "hi")
			return string(rs[lo:hi])
		}
	}
	if k < 8 {
		return strings.Join(rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return hx.Token(t) }), 0, 4).Draw(t, "toks"), "")
	}
	if k == 8 {
		return rapid.StringOfN(rapid.RuneFrom([]rune(meta+"aQE\\dwsbAzx0")), 1, 8, -1).Draw(t, "meta")
	}
	return rapid.String().Draw(t, "any")
}

func metaLine() *rapid.Generator[string] {
	return rapid.StringOfN(rapid.RuneFrom([]rune(meta+"aQEdwsbAzx0kKſs\u212a")), 0, 12, -1)
}

func search(t *rapid.T, ix *index.Index, pat string, lit, ic bool) hx.Want {
	var res *index.SearchResponse
	var err error
	hx.Bounded(t, fmt.Sprintf("search %q", pat), func() {
		res, err = ix.Search(pat, &index.SearchOptions{LiteralSearch: lit, IgnoreCase: ic})
	})
	if err != nil {
		t.Fatalf("search %q (literal %v, ignore case %v) failed: %v", pat, lit, ic, err)
	}
	w, _ := hx.Got(res)
	return w
}

func TestLiteral(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.TreeGen(6, 8).Draw(t, "tree")
		for i := rapid.IntRange(0, 3).Draw(t, "meta"); i > 0; i-- {
			tr.AddPath(fmt.Sprintf("m%d", i), strings.Join(rapid.SliceOfN(metaLine(), 0, 6).Draw(t, "ml"), "\n"))
		}
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		lines := tr.AllLines()
		for i := rapid.IntRange(1, 16).Draw(t, "queries"); i > 0; i-- {
			lit := literalGen(t, lines)
			if !utf8.ValidString(lit) {
				continue
			}
			ic := rapid.Bool().Draw(t, "icase")
			want := hx.Want{}
			total := 0
			for p, d := range tr {
				for j, l := range hx.Lines(d) {
					total++
					if !strings.Contains(lit, "\n") && (strings.Contains(l, lit) || ic && hx.FoldContains(l, lit)) {
						want[p] = append(want[p], hx.Hit{No: j + 1, Line: l})
					}
				}
			}
			got := search(t, ix, lit, true, ic)
			if d := hx.Diff(want, got, false); d != "" {
				t.Fatalf("literal search %q (ignore case %v): %s\ntree: %v", lit, ic, d, tr)
			}
			if ic {
				// the case of the typed letters does not matter
				alt := hx.SwapCase(t, lit)
				if d := hx.Diff(got, search(t, ix, alt, true, true), false); d != "" {
					t.Fatalf("ignore-case literal search %q differs from %q: %s\ntree: %v", alt, lit, d, tr)
				}
			}
			cls := []string{}
			if strings.ContainsAny(lit, `\.+*?()|[]{}^$`) {
				cls = append(cls, "metacharacters")
			}
			if ic {
				cls = append(cls, "ignore-case")
			}
			if len(lit) != utf8.RuneCountInString(lit) {
				cls = append(cls, "multi-byte")
			}
			h := want.NumHits()
			hx.Count(fmt.Sprintf("literal=%q icase=%v tree=%v", lit, ic, tr), h > 0 && h < total, cls...)
		}
	})
}

func TestFold(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.TreeGen(8, 8).Draw(t, "tree")
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		lines := tr.AllLines()
		for i := rapid.IntRange(1, 12).Draw(t, "queries"); i > 0; i-- {
			pat := hx.PatternGen(lines).Draw(t, "pat")
			cs := search(t, ix, pat, false, false)
			// a negated class or a case-sensitive group may lose matches when folded
			ci := search(t, ix, pat, false, true)
			if neg := strings.ContainsAny(pat, "^DWSPB-"); !neg {
				for p, hs := range cs {
					for _, h := range hs {
						found := false
						for _, g := range ci[p] {
							found = found || g.No == h.No
						}
						if !found {
							t.Fatalf("search %q: line %d of %q (%q) is lost when ignoring case\ntree: %v", pat, h.No, p, h.Line, tr)
						}
					}
				}
			}
			ref, err := hx.ParseRef("(?i)(?m)" + pat)
			if err == nil {
				if d := hx.Diff(hx.RefSearch(tr, ref, 0), ci, false); d != "" {
					t.Fatalf("ignore-case search %q: %s\ntree: %v", pat, d, tr)
				}
			}
			hx.Count(fmt.Sprintf("pat=%q tree=%v", pat, tr), ci.NumHits() > cs.NumHits(), "regexp-fold")
		}
	})
}
