// C08: the regexp matcher. Generated expressions and texts, against a
// set-of-positions matcher on every line that is cross-checked with Go's
// regexp engine; line-wise matching over chunked input of any length.
package c08

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"strings"
	"testing"

	hre "github.com/hound-search/hound/codesearch/regexp"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func modeGen(t *rapid.T) string {
	return rapid.SampledFrom([]string{"(?m)", "(?m)", "(?i)(?m)", ""}).Draw(t, "mode")
}

// firstMatch is the index of the first matching piece, or -1.
func firstMatch(ref *hx.RefRe, pieces []string, bot, eot bool) int {
	for i, p := range pieces {
		if ref.MatchLine(p, bot && i == 0, eot && i == len(pieces)-1) {
			return i
		}
	}
	return -1
}

func TestMatch(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		lines := rapid.SliceOfN(hx.LineGen(), 1, 4).Draw(t, "lines")
		full := modeGen(t) + hx.PatternGenAll(lines).Draw(t, "pat")
		ref, err := hx.ParseRef(full)
		if err != nil {
			return
		}
		var re *hre.Regexp
		hx.Bounded(t, fmt.Sprintf("compile %q", full), func() { re, err = hre.Compile(full) })
		if err != nil {
			t.Fatalf("compile %q: %v", full, err)
		}
		// without (?m), ^ and $ are text anchors; the reference reads them the same way
		n := rapid.IntRange(1, 6).Draw(t, "texts")
		type verdict struct {
			text     string
			bot, eot bool
			end      int
		}
		var seen []verdict
		for i := 0; i < n; i++ {
			var text string
			switch rapid.IntRange(0, 4).Draw(t, "tk") {
			case 0:
				text = hx.TextGen(4).Draw(t, "text")
			case 1:
				text = hx.LineGen().Draw(t, "pre") + hx.GenMatch(t, re.Syntax) + hx.LineGen().Draw(t, "post")
			case 2:
				text = hx.TextGen(3).Draw(t, "pre") + "\n" + hx.GenMatch(t, re.Syntax) + "\n" + hx.TextGen(2).Draw(t, "post")
			case 3:
				text = rapid.SampledFrom(lines).Draw(t, "line") + "\n" + hx.GenMatch(t, re.Syntax)
			default:
				text = hx.GenMatch(t, re.Syntax)
			}
			text = strings.ToValidUTF8(text, "?")
			bot, eot := true, true
			if rapid.IntRange(0, 3).Draw(t, "flags") == 0 {
				bot, eot = rapid.Bool().Draw(t, "bot"), rapid.Bool().Draw(t, "eot")
			}
			pieces := strings.Split(text, "\n")
			want := firstMatch(ref, pieces, bot, eot)
			var end, end2 int
			stringFirst := rapid.Bool().Draw(t, "stringFirst") // the second one finds the states of the first
			hx.Bounded(t, fmt.Sprintf("match %q", full), func() {
				if stringFirst {
					end2 = re.MatchString(text, bot, eot)
				}
				end = re.Match([]byte(text), bot, eot)
				if !stringFirst {
					end2 = re.MatchString(text, bot, eot)
				}
			})
			if end != end2 {
				t.Fatalf("%q on %q: Match says %d, MatchString says %d", full, text, end, end2)
			}
			lo := 0
			for j := 0; j < want; j++ {
				lo += len(pieces[j]) + 1
			}
			switch {
			case want < 0 && end >= 0:
				t.Fatalf("%q does not match %q (bot %v, eot %v), but the matcher reports a match ending at %d", full, text, bot, eot, end)
			case want >= 0 && end < 0:
				t.Fatalf("%q matches line %d of %q (bot %v, eot %v), but the matcher reports none", full, want, text, bot, eot)
			case want >= 0 && (end < lo || end > lo+len(pieces[want])):
				t.Fatalf("%q on %q: the reported end %d is outside the first matching line %d (bytes %d-%d)", full, text, end, want, lo, lo+len(pieces[want]))
			}
			seen = append(seen, verdict{text, bot, eot, end})
			cls := "no match"
			if want >= 0 {
				cls = "match"
			}
			if want > 0 {
				cls = "match after the first line"
			}
			hx.Count(fmt.Sprintf("re=%q text=%q bot=%v eot=%v", full, text, bot, eot), want >= 0 || len(text) > 2, cls)
		}
		// earlier matches leave no trace
		for i := len(seen) - 1; i >= 0; i-- {
			v := seen[i]
			if end := re.Match([]byte(v.text), v.bot, v.eot); end != v.end {
				t.Fatalf("%q on %q: %d at first, %d when asked again", full, v.text, v.end, end)
			}
			fresh, _ := hre.Compile(full)
			if end := fresh.MatchString(v.text, v.bot, v.eot); end != v.end {
				t.Fatalf("%q on %q: Match says %d, MatchString says %d with a fresh expression", full, v.text, v.end, end)
			}
			fresh, _ = hre.Compile(full)
			if end := fresh.Match([]byte(v.text), v.bot, v.eot); end != v.end {
				t.Fatalf("%q on %q: %d after other texts, %d with a fresh expression", full, v.text, v.end, end)
			}
		}
	})
}

// chunky returns the input in drawn portions.
type chunky struct {
	data  []byte
	sizes []int
	i     int
}

func (c *chunky) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, io.EOF
	}
	n := c.sizes[c.i%len(c.sizes)]
	c.i++
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.data) {
		n = len(c.data)
	}
	copy(p, c.data[:n])
	c.data = c.data[n:]
	return n, nil
}

func TestGrep(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		text := hx.TextGen(8).Draw(t, "text")
		kind := rapid.IntRange(0, 7).Draw(t, "size")
		if kind == 0 {
			// around and beyond the buffer, with the drawn text at the seams
			pad := rapid.SampledFrom([]string{"filler\n", "\n", "foo filler bar\n", "fill"}).Draw(t, "pad")
			size := rapid.SampledFrom([]int{1 << 20, 2 << 20, 1<<20 + 100, 3 << 20}).Draw(t, "size") + rapid.IntRange(-9, 9).Draw(t, "delta")
			if len(pad) > 4 || pad == "\n" {
				size = size / len(pad) * len(pad)
			}
			text = strings.Repeat(pad, size/len(pad)) + text + rapid.SampledFrom([]string{"", "\n", "foo\n"}).Draw(t, "mid") + strings.Repeat(pad, rapid.IntRange(0, 1<<18).Draw(t, "tail"))
		}
		lines := hx.Lines(text)
		var some []string
		for i, l := range lines {
			if l != "" && len(l) < 200 && (i < 8 || i > len(lines)-8) {
				some = append(some, l)
			}
		}
		full := rapid.SampledFrom([]string{"(?m)", "(?i)(?m)"}).Draw(t, "mode") + rapid.OneOf(hx.PatternGen(some), rapid.SampledFrom([]string{"^$", "foo", "$", "^", "bar$", "^f", "l"})).Draw(t, "pat")
		ref, err := hx.ParseRef(full)
		if err != nil {
			return
		}
		re, err := hre.Compile(full)
		if err != nil {
			t.Fatalf("compile %q: %v", full, err)
		}
		hits := ref.MatchText(text, 0)
		var out, errs bytes.Buffer
		g := hre.Grep{Regexp: re, Stdout: &out, Stderr: &errs}
		g.N, g.H = rapid.Bool().Draw(t, "n"), rapid.Bool().Draw(t, "h")
		switch rapid.IntRange(0, 5).Draw(t, "flag") {
		case 0:
			g.L = true
		case 1:
			g.C = true
		}
		var want strings.Builder
		prefix := "name:"
		if g.H {
			prefix = ""
		}
		switch {
		case g.L:
			if len(hits) > 0 {
				want.WriteString("name\n")
			}
		case g.C:
			if len(hits) > 0 {
				fmt.Fprintf(&want, "name: %d\n", len(hits))
			}
		default:
			for _, h := range hits {
				want.WriteString(prefix)
				if g.N {
					fmt.Fprintf(&want, "%d:", h.No)
				}
				want.WriteString(h.Line)
				if h.No < len(lines) || strings.HasSuffix(text, "\n") {
					want.WriteString("\n")
				}
			}
		}
		sizes := rapid.SliceOfN(rapid.IntRange(1, 9000), 1, 4).Draw(t, "chunks")
		if kind != 0 {
			sizes = rapid.SliceOfN(rapid.IntRange(1, 20), 1, 4).Draw(t, "chunks2")
		}
		hx.Bounded(t, fmt.Sprintf("grep %q", full), func() { g.Reader(&chunky{data: []byte(text), sizes: sizes}, "name") })
		if errs.Len() > 0 {
			t.Fatalf("grep %q: %s", full, errs.String())
		}
		if out.String() != want.String() {
			t.Fatalf("grep %q (N=%v L=%v C=%v H=%v) on %s:\nwant %s\ngot  %s", full, g.N, g.L, g.C, g.H, hx.Q(text), diffAt(want.String(), out.String()), diffAt(out.String(), want.String()))
		}
		if g.Match != (len(hits) > 0) {
			t.Fatalf("grep %q: Match is %v with %d matching lines", full, g.Match, len(hits))
		}
		cls := "grep, small"
		if kind == 0 {
			cls = "grep, beyond the buffer"
		}
		hx.Count(fmt.Sprintf("re=%q text=%s", full, hx.Q(text)), len(hits) > 0 && len(hits) < len(lines), cls)
	})
}

// diffAt shows a from a little before its first difference with b.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-40)
	hi := min(len(a), i+80)
	return fmt.Sprintf("(at %d of %d) %q", i, len(a), a[lo:hi])
}

// TestStates: expressions whose automata have more states than can be kept.
func TestStates(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		pat, text := hx.States(t, rapid.IntRange(2000, 28000).Draw(t, "size"))
		full := rapid.SampledFrom([]string{"(?m)", "(?m)", "(?i)(?m)"}).Draw(t, "mode") + pat
		re, err := hre.Compile(full)
		if err != nil {
			t.Fatalf("compile %q: %v", full, err)
		}
		std := regexp.MustCompile(full)
		lines := hx.Lines(text)
		var want []int
		for i, l := range lines {
			if std.MatchString(l) {
				want = append(want, i)
			}
		}
		// twice, as the second time some of the states are there
		for round := 0; round < 2; round++ {
			var got []int
			at, no := 0, 0
			for at < len(text) {
				end := 0
				hx.Bounded(t, fmt.Sprintf("match %q", full), func() {
					if round == 0 {
						end = re.Match([]byte(text[at:]), at == 0, true)
					} else {
						end = re.MatchString(text[at:], at == 0, true)
					}
				})
				if end < 0 {
					break
				}
				if end += at; end < at || end > len(text) || end < len(text) && text[end] != '\n' {
					t.Fatalf("%q: the match from byte %d ends at %d, which is not the end of a line", full, at, end)
				}
				no += strings.Count(text[at:end], "\n")
				got = append(got, no)
				at = end + 1
				no++
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fatalf("%q on %d bytes, round %d: lines\n%v, want\n%v\ntext %q", full, len(text), round, got, want, text)
			}
		}
		hx.Count(full+" "+text[:60], len(want) > 0 && len(want) < len(lines))
	})
}
