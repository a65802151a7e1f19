package hx

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// Huge is a file of 2 to 32 MiB: filler lines of a few kinds, with rare needle
// lines anywhere in it. There are few distinct lines, so that Go's engine can
// tell the matching ones quickly.
func Huge(t *rapid.T) string {
	size := rapid.SampledFrom([]int{2<<20 + 77, 3 << 20, 4<<20 - 1, 4 << 20, 4<<20 + 1, 8 << 20, 9 << 20, 16<<20 + 3, 20 << 20, 1<<25 - 1, 1 << 25}).Draw(t, "huge")
	long := strings.Repeat("some filler, ", rapid.IntRange(20, 150).Draw(t, "length"))
	fill := []string{long, "", "short", long + "\r", "ünïcödé " + long}
	marks := map[int]bool{}
	for i := rapid.IntRange(1, 8).Draw(t, "needles"); i > 0; i-- {
		marks[rapid.IntRange(0, size/1024).Draw(t, "KiB")] = true
	}
	// around powers of two, and at the end
	for s := 1 << 20; s < size; s *= 2 {
		marks[s/1024-1], marks[s/1024], marks[s/1024+1] = true, true, true
	}
	marks[size/1024-1], marks[size/1024-3] = true, true
	var b strings.Builder
	b.Grow(size)
	for i := 0; ; i++ {
		l := fill[i*i%7%len(fill)]
		if k := b.Len() / 1024; marks[k] {
			l = fmt.Sprintf("needle %d", k)
			delete(marks, k)
		}
		if b.Len()+len(l)+1 > size {
			break
		}
		b.WriteString(l + "\n")
	}
	if n := size - b.Len(); n > 0 {
		b.WriteString(strings.Repeat("z", n))
	}
	return b.String()
}

// HugePatterns can be evaluated on single lines by any engine.
var HugePatterns = []string{"needle", "^needle", `needle \d*[05]$`, "needle [1-4]", "z$", "^z+$", "eedle.*9", "cödé.*filler, $"}

// HugeHits returns the matching lines with n lines of context.
func HugeHits(data string, re *regexp.Regexp, n int) []Hit {
	lines := Lines(data)
	memo := map[string]bool{}
	var out []Hit
	last := 0
	for i, l := range lines {
		is, ok := memo[l]
		if !ok {
			is = re.MatchString(l)
			memo[l] = is
		}
		if !is {
			continue
		}
		h := Hit{No: i + 1, Line: l}
		if n > 0 {
			h.Before = lines[max(last, i-n):i]
			h.After = lines[i+1 : min(len(lines), i+1+n)]
		}
		out = append(out, h)
		last = i + 1
	}
	return out
}
