package hx

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
)

// Lines splits a file into its lines: '\n' ends a line, and a file that does
// not end in '\n' has a final line without one.
func Lines(data string) []string {
	if data == "" {
		return nil
	}
	ls := strings.Split(data, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// RefRe decides whether a line matches, slowly: it walks the syntax tree with
// sets of positions. It shares no code with the tested matcher except Go's
// regexp/syntax parser.
type RefRe struct {
	re *syntax.Regexp
	// std is Go's own engine on the same expression, a second opinion that is
	// used when the expression has no text anchors (which mean something else
	// when a line is matched on its own).
	std     *regexp.Regexp
	hasText bool
	memo    map[memoKey]bool
}

type memoKey struct {
	line        string
	first, last bool
}

// ParseRef parses an expression; the flags are those hound uses.
func ParseRef(pat string) (*RefRe, error) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err
	}
	r := &RefRe{re: re}
	r.scan(re)
	if !r.hasText {
		if r.std, err = regexp.Compile(pat); err != nil {
			return nil, err
		}
	}
	return r, nil
}

func (r *RefRe) scan(re *syntax.Regexp) {
	switch re.Op {
	case syntax.OpBeginText, syntax.OpEndText:
		r.hasText = true
	}
	for _, s := range re.Sub {
		r.scan(s)
	}
}

type refCtx struct {
	in          []rune
	first, last bool // the line starts the text / ends it without a newline
}

type posSet []bool

func (p posSet) any() bool {
	for _, b := range p {
		if b {
			return true
		}
	}
	return false
}

func isWord(r rune) bool {
	return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
}

func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for f := unicode.SimpleFold(a); f != a; f = unicode.SimpleFold(f) {
		if f == b {
			return true
		}
	}
	return false
}

func (c *refCtx) filter(p posSet, ok func(i int) bool) posSet {
	out := make(posSet, len(p))
	for i, b := range p {
		if b && ok(i) {
			out[i] = true
		}
	}
	return out
}

func (c *refCtx) stepRune(p posSet, ok func(r rune) bool) posSet {
	out := make(posSet, len(p))
	for i, b := range p {
		if b && i < len(c.in) && ok(c.in[i]) {
			out[i+1] = true
		}
	}
	return out
}

func or(a, b posSet) posSet {
	out := make(posSet, len(a))
	for i := range a {
		out[i] = a[i] || b[i]
	}
	return out
}

func (c *refCtx) star(sub *syntax.Regexp, p posSet) posSet {
	all := p
	cur := p
	for {
		cur = c.run(sub, cur)
		grown := false
		next := make(posSet, len(all))
		copy(next, all)
		for i, b := range cur {
			if b && !next[i] {
				next[i] = true
				grown = true
			}
		}
		if !grown {
			return all
		}
		all = next
	}
}

func (c *refCtx) boundary(i int) bool {
	l := i > 0 && isWord(c.in[i-1])
	r := i < len(c.in) && isWord(c.in[i])
	return l != r
}

func (c *refCtx) run(re *syntax.Regexp, p posSet) posSet {
	if !p.any() {
		return p
	}
	switch re.Op {
	case syntax.OpNoMatch:
		return make(posSet, len(p))
	case syntax.OpEmptyMatch:
		return p
	case syntax.OpLiteral:
		for _, lr := range re.Rune {
			lr := lr
			if re.Flags&syntax.FoldCase != 0 {
				p = c.stepRune(p, func(r rune) bool { return foldEq(lr, r) })
			} else {
				p = c.stepRune(p, func(r rune) bool { return lr == r })
			}
		}
		return p
	case syntax.OpCharClass:
		return c.stepRune(p, func(r rune) bool {
			for i := 0; i+1 < len(re.Rune); i += 2 {
				if re.Rune[i] <= r && r <= re.Rune[i+1] {
					return true
				}
			}
			return false
		})
	case syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return c.stepRune(p, func(rune) bool { return true })
	case syntax.OpBeginLine:
		return c.filter(p, func(i int) bool { return i == 0 })
	case syntax.OpEndLine:
		return c.filter(p, func(i int) bool { return i == len(c.in) })
	case syntax.OpBeginText:
		return c.filter(p, func(i int) bool { return c.first && i == 0 })
	case syntax.OpEndText:
		return c.filter(p, func(i int) bool { return c.last && i == len(c.in) })
	case syntax.OpWordBoundary:
		return c.filter(p, c.boundary)
	case syntax.OpNoWordBoundary:
		return c.filter(p, func(i int) bool { return !c.boundary(i) })
	case syntax.OpCapture:
		return c.run(re.Sub[0], p)
	case syntax.OpStar:
		return c.star(re.Sub[0], p)
	case syntax.OpPlus:
		return c.star(re.Sub[0], c.run(re.Sub[0], p))
	case syntax.OpQuest:
		return or(p, c.run(re.Sub[0], p))
	case syntax.OpRepeat:
		for i := 0; i < re.Min; i++ {
			p = c.run(re.Sub[0], p)
		}
		if re.Max < 0 {
			return c.star(re.Sub[0], p)
		}
		acc := p
		for i := re.Min; i < re.Max; i++ {
			p = c.run(re.Sub[0], p)
			acc = or(acc, p)
		}
		return acc
	case syntax.OpConcat:
		for _, s := range re.Sub {
			p = c.run(s, p)
		}
		return p
	case syntax.OpAlternate:
		acc := make(posSet, len(p))
		for _, s := range re.Sub {
			acc = or(acc, c.run(s, p))
		}
		return acc
	}
	panic("hx: unknown syntax op " + re.String())
}

// MatchLine tells whether the line (without its newline) matches. first says
// that the line is the first of the text, last that it is the final one and
// has no newline.
func (r *RefRe) MatchLine(line string, first, last bool) bool {
	if strings.IndexByte(line, '\n') >= 0 {
		panic("hx: MatchLine on several lines")
	}
	key := memoKey{line, first && r.hasText, last && r.hasText}
	if m, ok := r.memo[key]; ok {
		return m
	}
	c := &refCtx{in: []rune(line), first: first, last: last}
	p := make(posSet, len(c.in)+1)
	for i := range p {
		p[i] = true
	}
	got := c.run(r.re, p).any()
	if r.std != nil && r.std.MatchString(line) != got {
		Env("reference matchers disagree on %q for %q", r.std.String(), line)
	}
	if r.memo == nil {
		r.memo = map[memoKey]bool{}
	}
	r.memo[key] = got
	return got
}

// Hit is one matching line.
type Hit struct {
	No            int
	Line          string
	Before, After []string
}

// MatchText returns the matching lines of a text with n lines of context, by
// the definition of the property.
func (r *RefRe) MatchText(text string, n int) []Hit { return r.matchText(text, n, false) }

// MatchTextKnown is MatchText under the listed finding "bot-after-match": the
// line directly after a matching line is treated as if it began the text.
func (r *RefRe) MatchTextKnown(text string, n int) []Hit { return r.matchText(text, n, true) }

// HasBeginText tells whether the expression has a beginning-of-text anchor.
func (r *RefRe) HasBeginText() bool { return hasOp(r.re, syntax.OpBeginText) }

func hasOp(re *syntax.Regexp, op syntax.Op) bool {
	if re.Op == op {
		return true
	}
	for _, s := range re.Sub {
		if hasOp(s, op) {
			return true
		}
	}
	return false
}

func (r *RefRe) matchText(text string, n int, known bool) []Hit {
	lines := Lines(text)
	var out []Hit
	prev := -1 // index of the previous match
	for i, l := range lines {
		last := i == len(lines)-1 && !strings.HasSuffix(text, "\n")
		if !r.MatchLine(l, i == 0 || known && prev == i-1, last) {
			continue
		}
		lo := i - n
		if lo < prev+1 {
			lo = prev + 1
		}
		hi := i + 1 + n
		if hi > len(lines) {
			hi = len(lines)
		}
		out = append(out, Hit{No: i + 1, Line: l, Before: lines[lo:i], After: lines[i+1 : hi]})
		prev = i
	}
	return out
}

// MatchName decides a path filter. ok is false when the name contains a newline
// and the expression means different things line by line and as a whole.
func MatchName(pat, name string) (match, ok bool, err error) {
	std, err := regexp.Compile(pat)
	if err != nil {
		return false, false, err
	}
	whole := std.MatchString(name)
	if !strings.Contains(name, "\n") {
		return whole, true, nil
	}
	re, err := ParseRef(pat)
	if err != nil {
		return false, false, err
	}
	byLine := false
	ls := strings.Split(name, "\n")
	for i, l := range ls {
		if re.MatchLine(l, i == 0, i == len(ls)-1) {
			byLine = true
		}
	}
	return whole, whole == byLine, nil
}
