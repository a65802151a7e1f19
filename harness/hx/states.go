package hx

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// States is a text of about size bytes and an expression for which an automaton
// has very many states: at nearly every byte of the text there is a new one.
func States(t *rapid.T, size int) (pat, text string) {
	letters := rapid.SampledFrom([]string{"ab", "ab", "ab ", "xyz", "é1"}).Draw(t, "letters")
	rs := []rune(letters)
	line := rapid.IntRange(30, 300).Draw(t, "line")
	x := rapid.Uint64().Draw(t, "noise")
	var b strings.Builder
	for n, end := 0, line; b.Len() < size; n++ {
		x = x*6364136223846793005 + 1442695040888963407
		b.WriteRune(rs[x>>33%uint64(len(rs))])
		if n >= end {
			b.WriteByte('\n')
			end = n + line/2 + int(x>>40)%line
		}
	}
	part := func() string {
		k := rapid.IntRange(9, 24).Draw(t, "gap")
		first := QuoteRe(string(rs[rapid.IntRange(0, len(rs)-1).Draw(t, "first")]))
		class := rapid.SampledFrom([]string{"[" + letters + "]", "[" + letters + "]", "(?:" + string(rs[0]) + "|[" + string(rs[1:]) + "])", "."}).Draw(t, "class")
		if class == "." {
			k = rapid.IntRange(9, 12).Draw(t, "gap") // that is already expensive
		}
		last := rapid.SampledFrom([]string{"c", "c", "$", "cab", `\b` + string(rs[0]) + "{7}", string(rs[:1]) + "{9}c?$", "(?:c|" + string(rs[0]) + `{8})`}).Draw(t, "last")
		rep := fmt.Sprintf("{%d}", k)
		if rapid.IntRange(0, 4).Draw(t, "open") == 0 {
			rep = fmt.Sprintf("{%d,%d}", k, k+rapid.IntRange(1, 3).Draw(t, "more"))
		}
		return first + class + rep + last
	}
	pat = part()
	switch rapid.IntRange(0, 5).Draw(t, "shape") {
	case 0:
		pat += "|" + part()
	case 1:
		pat = ".*" + pat
	case 2:
		pat = "(?:" + pat + ")+"
	}
	return pat, b.String()
}
