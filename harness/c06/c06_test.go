// C06: the trigram query never rules out a matching text. Texts are made from
// the expression's own syntax tree, confirmed with Go's regexp engine, and the
// query is evaluated over their real trigram sets.
package c06

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/hound-search/hound/codesearch/index"
	hre "github.com/hound-search/hound/codesearch/regexp"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func holds(q *index.Query, has map[string]bool) bool {
	switch q.Op {
	case index.QAll:
		return true
	case index.QNone:
		return false
	case index.QAnd:
		for _, t := range q.Trigram {
			if !has[t] {
				return false
			}
		}
		for _, s := range q.Sub {
			if !holds(s, has) {
				return false
			}
		}
		return true
	case index.QOr:
		for _, t := range q.Trigram {
			if has[t] {
				return true
			}
		}
		for _, s := range q.Sub {
			if holds(s, has) {
				return true
			}
		}
		return false
	}
	panic("unknown query operator")
}

func trigrams(s string) map[string]bool {
	has := map[string]bool{}
	for i := 0; i+3 <= len(s); i++ {
		has[s[i:i+3]] = true
	}
	return has
}

// wide makes expressions with many alternatives, which drive the sets of the
// analysis over their size limits.
func wide(t *rapid.T) string {
	piece := func() string {
		switch rapid.IntRange(0, 5).Draw(t, "p") {
		case 0:
			n := rapid.IntRange(2, 12).Draw(t, "n")
			alts := make([]string, n)
			for i := range alts {
				alts[i] = hx.QuoteRe(rapid.StringMatching(`[a-e]{0,5}`).Draw(t, "alt"))
			}
			return "(?:" + strings.Join(alts, "|") + ")"
		case 1:
			return "[" + rapid.StringMatching(`[a-z]{1,12}`).Draw(t, "cls") + "]"
		case 2:
			return rapid.StringMatching(`[a-e]{1,6}`).Draw(t, "lit")
		case 3:
			return rapid.SampledFrom([]string{".", ".*", "x?", "(?:ab)?", "(?:abc)*", "(?:abcd)+", "[a-c]{2}", "(?:bcd){0,2}"}).Draw(t, "op")
		case 4:
			return "(?i:" + rapid.StringMatching(`[a-ks]{1,7}`).Draw(t, "ilit") + ")"
		default:
			return hx.QuoteRe(hx.Token(t))
		}
	}
	n := rapid.IntRange(1, 6).Draw(t, "pieces")
	s := ""
	for i := 0; i < n; i++ {
		s += piece()
	}
	if rapid.IntRange(0, 2).Draw(t, "top") == 0 {
		s += "|" + piece() + piece()
	}
	return s
}

// nested makes expressions of few words that occur again and again, in
// sequences, alternatives and repetitions of each other, so that parts of the
// query imply, contain or share trigrams with other parts.
func nested(t *rapid.T) string {
	pool := rapid.SliceOfN(rapid.OneOf(
		rapid.StringMatching(`[a-c]{3}`),
		rapid.StringMatching(`[a-d]{4,5}`),
		rapid.SampledFrom([]string{"abc", "def", "abcd", "bcd", "cde", "wxyz", "abcdef"}),
	), 2, 5).Draw(t, "pool")
	var gen func(depth int) string
	alts := func(depth int) string {
		n := rapid.IntRange(2, 4).Draw(t, "alts")
		p := make([]string, n)
		for i := range p {
			p[i] = gen(depth - 1)
		}
		return "(?:" + strings.Join(p, "|") + ")"
	}
	gen = func(depth int) string {
		if depth <= 0 {
			return rapid.SampledFrom(pool).Draw(t, "word")
		}
		s := ""
		switch rapid.IntRange(0, 5).Draw(t, "op") {
		case 0:
			s = gen(depth - 1)
		case 1, 2:
			s = alts(depth)
		default:
			n := rapid.IntRange(2, 3).Draw(t, "seq")
			for i := 0; i < n; i++ {
				if i > 0 {
					s += rapid.SampledFrom([]string{".*", ".*", ".", "", " ", ".?", "[a-c]"}).Draw(t, "sep")
				}
				if rapid.Bool().Draw(t, "alternatives") {
					s += alts(depth)
				} else {
					s += gen(depth - 1)
				}
			}
		}
		switch rapid.IntRange(0, 9).Draw(t, "after") {
		case 0:
			s = "(?:" + s + ")" + rapid.SampledFrom([]string{"+", "*", "?", "{2}", "{1,2}", "+?"}).Draw(t, "rep")
		case 1, 2:
			s += ".*"
		case 3:
			s = ".*" + s
		}
		return s
	}
	s := gen(rapid.IntRange(1, 3).Draw(t, "depth"))
	if rapid.IntRange(0, 2).Draw(t, "top") == 0 {
		s += "|" + gen(2)
	}
	return s
}

func TestQuerySound(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		var pat string
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			pat = wide(t)
		case 1, 2:
			pat = nested(t)
		default:
			lines := rapid.SliceOfN(hx.LineGen(), 1, 3).Draw(t, "lines")
			pat = hx.PatternGenAll(lines).Draw(t, "pat")
		}
		full := rapid.SampledFrom([]string{"(?m)", "(?i)(?m)", "(?m)", ""}).Draw(t, "mode") + pat
		std, err := regexp.Compile(full)
		if err != nil {
			return
		}
		re, err := hre.Compile(full)
		if err != nil {
			t.Fatalf("compile %q: %v", full, err)
		}
		var q *index.Query
		hx.Bounded(t, fmt.Sprintf("query of %q", full), func() { q = index.RegexpQuery(re.Syntax) })
		for i := 0; i < 4; i++ {
			text := hx.GenMatch(t, re.Syntax)
			if rapid.Bool().Draw(t, "surround") {
				text = rapid.OneOf(hx.LineGen(), hx.TextGen(3)).Draw(t, "pre") + text + rapid.OneOf(hx.LineGen(), hx.TextGen(3)).Draw(t, "post")
			}
			if !std.MatchString(text) {
				hx.Count("", false, "text does not match")
				continue
			}
			if !holds(q, trigrams(text)) {
				t.Fatalf("%q matches %q, but its trigram query %v rules the text out", full, text, q)
			}
			cls := []string{"matching text"}
			if q.Op != index.QAll {
				cls = append(cls, "selective query")
			}
			if len(q.Sub) > 0 {
				cls = append(cls, "nested query")
			}
			hx.Count(fmt.Sprintf("re=%q text=%q query=%v", full, text, q), q.Op != index.QAll, cls...)
		}
	})
}
