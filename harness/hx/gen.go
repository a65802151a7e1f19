package hx

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Vocabulary of file contents. Short tokens over a small alphabet make shared
// trigrams, near misses and repeated lines likely; the rest covers case
// folding with several variants, multi-byte runes and metacharacters.
var tokens = []string{
	"foo", "bar", "Foo", "BAR", "fooBar", "baz", "a", "b", "ab", "abc", "ba", "aab", "xyz", "Xyz",
	"0", "12", "_", "_x1", " ", " ", "\t", "(", ")", "[", "]", "{", "}", ".", "*", "+", "?", "|", "\\", "^", "$", "-", "/", "\"", "'", "&", "<", ">",
	"é", "É", "ſ", "s", "S", "K", "k", "\u212a", "ß", "ẞ", "日本", "語", "ǅ", "ǆ", "Σ", "σ", "ς", "İ", "ı", "µ", "Å", "å", "\U0001F600", "\u0416\u0436",
	"\r", "func", "return", "TODO", "x := y", "if err != nil", "end",
	"\u007f", "\u0080", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff", "\ud7ff", "\ue000", "\u2028", "\u0001",
}

var tokGen = rapid.SampledFrom(tokens)

// commonTok is a smaller vocabulary, for denser matching.
var commonTok = rapid.SampledFrom([]string{"foo", "bar", "Foo", "a", "b", "ab", "abc", " ", "baz", "k", "K", "s", ".", "x"})

// LineGen makes one line without newline.
func LineGen() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		g := tokGen
		if rapid.IntRange(0, 2).Draw(t, "voc") > 0 {
			g = commonTok
		}
		return strings.Join(rapid.SliceOfN(g, 0, 7).Draw(t, "toks"), "")
	})
}

// TextGen makes the content of a text file.
func TextGen(maxLines int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(0, maxLines).Draw(t, "n")
		var b strings.Builder
		var prev []string
		for i := 0; i < n; i++ {
			var l string
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k < 2:
				l = ""
			case k < 4 && len(prev) > 0:
				l = rapid.SampledFrom(prev).Draw(t, "rep")
			default:
				l = LineGen().Draw(t, "line")
				prev = append(prev, l)
			}
			b.WriteString(l)
			if i < n-1 || rapid.IntRange(0, 3).Draw(t, "nl") > 0 {
				if rapid.IntRange(0, 15).Draw(t, "cr") == 0 {
					b.WriteByte('\r')
				}
				b.WriteByte('\n')
			}
		}
		return b.String()
	})
}

// Tree maps slash-separated relative paths to contents.
type Tree map[string]string

func (tr Tree) Paths() []string {
	var ps []string
	for p := range tr {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}

func (tr Tree) Clone() Tree {
	c := Tree{}
	for p, d := range tr {
		c[p] = d
	}
	return c
}

func (tr Tree) String() string {
	var b strings.Builder
	for _, p := range tr.Paths() {
		fmt.Fprintf(&b, "%q:%s ", p, Q(tr[p]))
	}
	return b.String()
}

// Q quotes, shortening long contents.
func Q(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q...(%d bytes, hash %x)", s[:300], len(s), hash64(s))
	}
	return fmt.Sprintf("%q", s)
}

// Names are printable path segments. No dot-names, these have their own rules.
var segs = []string{"a", "b", "c", "main.go", "foo", "foo.go", "bar", "Bar.txt", "baz_test.go", "x y", "é.md", "日本", "README", "lib", "src", "a.b.c", "q'\"&<", "100%", "a+b", "[z]", "(w)", "k", "K.go", "\u212a", "~", "-d", "ab", "ba"}

// PathGen makes relative paths up to depth 3.
func PathGen() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return strings.Join(rapid.SliceOfN(rapid.SampledFrom(segs), 1, 3).Draw(t, "segs"), "/")
	})
}

// AddPath adds a file unless its path collides with a directory or a file
// stands where it needs a directory.
func (tr Tree) AddPath(p, data string) bool {
	if _, dup := tr[p]; dup {
		return false
	}
	for q := range tr {
		if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
			return false
		}
	}
	tr[p] = data
	return true
}

// TreeGen makes trees of text files.
func TreeGen(maxFiles, maxLines int) *rapid.Generator[Tree] {
	return rapid.Custom(func(t *rapid.T) Tree {
		n := rapid.IntRange(0, maxFiles).Draw(t, "files")
		tr := Tree{}
		for i := 0; i < n; i++ {
			tr.AddPath(PathGen().Draw(t, "path"), TextGen(maxLines).Draw(t, "text"))
		}
		return tr
	})
}

// ---- patterns ----

func quoteLit(s string) string {
	return QuoteRe(s)
}

// QuoteRe escapes metacharacters (own implementation, not the tested one).
func QuoteRe(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r < utf8.RuneSelf && strings.ContainsRune(`\.+*?()|[]{}^$`, r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

var classItems = []string{
	"[ab]", "[a-c]", "[^a]", "[^b-z]", "[A-Z]", "[0-9_]", `\d`, `\D`, `\w`, `\W`, `\s`, `\S`, "[[:alpha:]]", "[^[:space:]]", "[é-ö]", "[ſk]", "[K]", `\pL`, `\PL`, `\p{Greek}`, `\p{Lu}`, `\p{Han}`,
	`[\x{80}-\x{7ff}]`, `[\x{7ff}-\x{800}]`, `[\x{ffff}-\x{10000}]`, `[^\x{0}-\x{7f}]`, `[\x{10000}-\x{10ffff}]`, `[\x{7e}-\x{90}]`, `[\x{d7ff}\x{e000}]`, `[o-r]`, "[.]", `[\]\\-]`, "[fF]", "[[:^digit:]]",
	`[\x{3041}-\x{9fff}]`, `[\x{e9}\x{1F600}]`, "[a-zA-Z_]",
}

var anchorItems = []string{"^", "$", `\b`, `\B`, `\A`, `\z`, "(?-m:^)", "(?-m:$)"}

func grammar(t *rapid.T, depth int, lits []string) string {
	k := rapid.IntRange(0, 11).Draw(t, "k")
	if depth <= 0 && k > 5 {
		k %= 6
	}
	sub := func() string { return grammar(t, depth-1, lits) }
	switch k {
	case 0, 1, 2:
		return quoteLit(rapid.SampledFrom(lits).Draw(t, "lit"))
	case 3:
		return "."
	case 4:
		return rapid.SampledFrom(classItems).Draw(t, "class")
	case 5:
		return rapid.SampledFrom(anchorItems).Draw(t, "anchor")
	case 6, 7:
		n := rapid.IntRange(2, 4).Draw(t, "n")
		s := ""
		for i := 0; i < n; i++ {
			s += sub()
		}
		return s
	case 8, 9:
		n := rapid.IntRange(2, 4).Draw(t, "n")
		s := make([]string, n)
		for i := range s {
			if rapid.IntRange(0, 9).Draw(t, "empty") > 0 {
				s[i] = sub()
			}
		}
		return rapid.SampledFrom([]string{"(?:", "("}).Draw(t, "grp") + strings.Join(s, "|") + ")"
	case 10:
		q := rapid.SampledFrom([]string{"*", "+", "?", "*?", "+?", "??", "{2}", "{0,2}", "{1,3}", "{2,}", "{0}"}).Draw(t, "q")
		return "(?:" + sub() + ")" + q
	default:
		f := rapid.SampledFrom([]string{"(?i:", "(?-i:", "(?s:", "(?i)(?:", "(?U:"}).Draw(t, "flag")
		return f + sub() + ")"
	}
}

// swapCase replaces a rune by another member of its fold orbit.
func swapCase(t *rapid.T, r rune) rune {
	n := rapid.IntRange(0, 2).Draw(t, "orbit")
	for i := 0; i < n; i++ {
		r = unicode.SimpleFold(r)
	}
	return r
}

// mutate turns a substring of the content into an expression that (usually)
// still matches it, by generalising pieces.
func mutate(t *rapid.T, s string) string {
	rs := []rune(s)
	var b strings.Builder
	i := 0
	for i < len(rs) {
		n := rapid.IntRange(1, 4).Draw(t, "len")
		if i+n > len(rs) {
			n = len(rs) - i
		}
		piece := string(rs[i : i+n])
		q := quoteLit(piece)
		switch rapid.IntRange(0, 11).Draw(t, "mut") {
		case 0, 1, 2, 3:
			b.WriteString(q)
		case 4:
			b.WriteString(".")
			for j := 1; j < n; j++ {
				b.WriteString(quoteLit(string(rs[i+j])))
			}
		case 5:
			b.WriteString("(?:" + q + "|" + quoteLit(tokGen.Draw(t, "alt")) + ")")
		case 6:
			b.WriteString("(" + quoteLit(tokGen.Draw(t, "alt")) + "|" + q + "|" + quoteLit(tokGen.Draw(t, "alt2")) + ")")
		case 7:
			b.WriteString("(?:" + q + ")" + rapid.SampledFrom([]string{"+", "{1,2}", "?", "*", "+?"}).Draw(t, "rep"))
		case 8:
			b.WriteString("(?i:")
			for _, r := range piece {
				b.WriteString(quoteLit(string(swapCase(t, r))))
			}
			b.WriteString(")")
		case 9:
			// a class holding the first rune
			b.WriteString("[" + quoteClass(rs[i]) + quoteClass([]rune(tokGen.Draw(t, "cls"))[0]) + "]")
			for j := 1; j < n; j++ {
				b.WriteString(quoteLit(string(rs[i+j])))
			}
		case 10:
			b.WriteString(".*")
		default:
			b.WriteString(q + "(?:" + quoteLit(tokGen.Draw(t, "opt")) + ")" + rapid.SampledFrom([]string{"?", "*", "{0,2}"}).Draw(t, "rep"))
		}
		i += n
	}
	return b.String()
}

func quoteClass(r rune) string {
	return fmt.Sprintf(`\x{%x}`, r)
}

// PatternGen makes valid expressions aimed at the given lines: literal pieces,
// generalisations of pieces, and free combinations of the grammar.
//
// Expressions with a beginning-of-text anchor are left to C01, which has a
// listed finding about them (PatternGenAll).
func PatternGen(lines []string) *rapid.Generator[string] { return patternGen(lines, false) }

// PatternGenAll is PatternGen with beginning-of-text anchors.
func PatternGenAll(lines []string) *rapid.Generator[string] { return patternGen(lines, true) }

func patternGen(lines []string, all bool) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		for try := 0; ; try++ {
			var p string
			k := rapid.IntRange(0, 9).Draw(t, "pkind")
			src := ""
			if len(lines) > 0 && k < 7 {
				src = rapid.SampledFrom(lines).Draw(t, "src")
			}
			rs := []rune(src)
			if len(rs) > 0 {
				lo := rapid.IntRange(0, len(rs)-1).Draw(t, "lo")
				hi := rapid.IntRange(lo+1, min(len(rs), lo+14)).Draw(t, "hi")
				piece := string(rs[lo:hi])
				if k < 2 {
					p = quoteLit(piece)
				} else {
					p = mutate(t, piece)
				}
				if lo == 0 && rapid.IntRange(0, 3).Draw(t, "bol") == 0 {
					p = "^" + p
				}
				if hi == len(rs) && rapid.IntRange(0, 3).Draw(t, "eol") == 0 {
					p += "$"
				}
			} else if k < 9 {
				lits := []string{"a", "foo", "ab", "b", "bar", "abc", "k", "s", " "}
				p = grammar(t, 3, append(lits, tokGen.Draw(t, "lit1"), tokGen.Draw(t, "lit2")))
			} else {
				p = rapid.SampledFrom([]string{"", "^$", "^", "$", ".", ".*", "x*", "a*", "^.*$", `\s+$`, `^\s*$`, "(a|b)*c", `\bfoo\b`, "foo|", "[^\n]", `\Aa`, `a\z`, `\A`, `\z`, "(?i)foo", "(?i)k", "\\r$", `\x{d7ff}`, "foo\n", `a\nb`, "a|b|ab|abc|foo|bar", "(?s).+", "()", "(?:)*", "a{0}", "[[:cntrl:]]"}).Draw(t, "special")
			}
			if re, err := syntax.Parse("(?m)"+p, syntax.Perl); err == nil && !surrogateEdge(re) && len(p) < 400 && (all || !hasOp(re, syntax.OpBeginText)) {
				return p
			}
			if try > 20 {
				return "foo"
			}
		}
	})
}

// surrogateEdge excludes classes with an end point among the surrogates, which
// no text contains.
func surrogateEdge(re *syntax.Regexp) bool {
	if re.Op == syntax.OpCharClass {
		for _, r := range re.Rune {
			if 0xd800 <= r && r <= 0xdfff {
				return true
			}
		}
	}
	for _, s := range re.Sub {
		if surrogateEdge(s) {
			return true
		}
	}
	return false
}

// AllLines lists the distinct nonempty lines of a tree, in path order.
func (tr Tree) AllLines() []string {
	var out []string
	seen := map[string]bool{"": true}
	for _, p := range tr.Paths() {
		for _, l := range Lines(tr[p]) {
			if !seen[l] {
				seen[l] = true
				out = append(out, l)
			}
		}
	}
	return out
}

// GenMatch makes a text that the expression (probably) matches, by walking its
// syntax tree. Anchors are ignored, so the caller verifies.
func GenMatch(t *rapid.T, re *syntax.Regexp) string {
	switch re.Op {
	case syntax.OpLiteral:
		var b strings.Builder
		for _, r := range re.Rune {
			if re.Flags&syntax.FoldCase != 0 {
				r = swapCase(t, r)
			}
			b.WriteRune(r)
		}
		return b.String()
	case syntax.OpCharClass:
		if len(re.Rune) < 2 {
			return ""
		}
		i := rapid.IntRange(0, len(re.Rune)/2-1).Draw(t, "range") * 2
		lo, hi := re.Rune[i], re.Rune[i+1]
		var r rune
		switch rapid.IntRange(0, 3).Draw(t, "at") {
		case 0:
			r = lo
		case 1:
			r = hi
		default:
			h := hi
			if h > lo+60 {
				h = lo + 60
			}
			r = rapid.Int32Range(lo, h).Draw(t, "rune")
		}
		return string(r)
	case syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return string([]rune(tokGen.Draw(t, "any"))[:1])
	case syntax.OpCapture:
		return GenMatch(t, re.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
		lo, hi := 0, 3
		switch re.Op {
		case syntax.OpPlus:
			lo = 1
		case syntax.OpQuest:
			hi = 1
		case syntax.OpRepeat:
			lo, hi = re.Min, re.Max
			if hi < 0 || hi > lo+3 {
				hi = lo + 3
			}
		}
		n := rapid.IntRange(lo, hi).Draw(t, "times")
		s := ""
		for i := 0; i < n && len(s) < 2000; i++ {
			s += GenMatch(t, re.Sub[0])
		}
		return s
	case syntax.OpConcat:
		s := ""
		for _, sub := range re.Sub {
			s += GenMatch(t, sub)
		}
		return s
	case syntax.OpAlternate:
		return GenMatch(t, re.Sub[rapid.IntRange(0, len(re.Sub)-1).Draw(t, "alt")])
	}
	return ""
}

// Token draws one vocabulary item.
func Token(t *rapid.T) string { return tokGen.Draw(t, "tok") }

// SwapCase replaces runes by members of their fold orbits.
func SwapCase(t *rapid.T, s string) string {
	rs := []rune(s)
	for i := range rs {
		rs[i] = swapCase(t, rs[i])
	}
	return string(rs)
}

// FoldContains tells whether line has sub under simple case folding.
func FoldContains(line, sub string) bool {
	l, s := []rune(line), []rune(sub)
	for i := 0; i+len(s) <= len(l); i++ {
		ok := true
		for j := range s {
			if !foldEq(s[j], l[i+j]) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}
