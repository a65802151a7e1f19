// C07: the index file returns exactly what was added to it. Generated file
// sequences, posting queries and merges, against sets computed from the
// contents; large volumes make the writer spill runs to disk.
package c07

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/codesearch/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

type file struct{ name, data string }

// add writes the files and returns the accepted ones.
func add(t hx.TB, ix *index.IndexWriter, fs []file, mustTake func(file) bool) []file {
	var out []file
	for _, f := range fs {
		reason := ix.Add(f.name, strings.NewReader(f.data))
		if reason == "" {
			out = append(out, f)
		} else if mustTake(f) {
			t.Fatalf("file %q with content %s was refused: %s", f.name, hx.Q(f.data), reason)
		}
	}
	ix.Flush()
	ix.Close()
	return out
}

func tri(s string) uint32 { return uint32(s[0])<<16 | uint32(s[1])<<8 | uint32(s[2]) }

func trigrams(s string) map[string]bool {
	has := map[string]bool{}
	for i := 0; i+3 <= len(s); i++ {
		has[s[i:i+3]] = true
	}
	return has
}

func model(fs []file) map[string][]uint32 {
	m := map[string][]uint32{}
	for i, f := range fs {
		for t := range trigrams(f.data) {
			m[t] = append(m[t], uint32(i))
		}
	}
	return m
}

func eq(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// eval is the set meaning of a query.
func eval(q *index.Query, m map[string][]uint32, n int) map[uint32]bool {
	out := map[uint32]bool{}
	switch q.Op {
	case index.QAll:
		for i := 0; i < n; i++ {
			out[uint32(i)] = true
		}
	case index.QOr:
		for _, t := range q.Trigram {
			for _, id := range m[t] {
				out[id] = true
			}
		}
		for _, s := range q.Sub {
			for id := range eval(s, m, n) {
				out[id] = true
			}
		}
	case index.QAnd:
		for i := 0; i < n; i++ {
			out[uint32(i)] = true
		}
		keep := func(k map[uint32]bool) {
			for id := range out {
				if !k[id] {
					delete(out, id)
				}
			}
		}
		for _, t := range q.Trigram {
			k := map[uint32]bool{}
			for _, id := range m[t] {
				k[id] = true
			}
			keep(k)
		}
		for _, s := range q.Sub {
			keep(eval(s, m, n))
		}
	}
	return out
}

func sorted(m map[uint32]bool) []uint32 {
	out := []uint32{}
	for id := range m {
		out = append(out, id)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func queryGen(t *rapid.T, tris []string, depth int) *index.Query {
	k := rapid.IntRange(0, 9).Draw(t, "q")
	if k == 0 {
		return &index.Query{Op: index.QAll}
	}
	if k == 1 {
		return &index.Query{Op: index.QNone}
	}
	q := &index.Query{Op: rapid.SampledFrom([]index.QueryOp{index.QAnd, index.QOr}).Draw(t, "op")}
	g := rapid.OneOf(rapid.SampledFrom(tris), rapid.SampledFrom(tris), rapid.StringMatching("[abofr ]{3}"))
	nt := rapid.IntRange(0, 3).Draw(t, "nt")
	for i := 0; i < nt; i++ {
		q.Trigram = append(q.Trigram, g.Draw(t, "t"))
	}
	ns := 0
	if depth > 0 {
		ns = rapid.IntRange(0, 2).Draw(t, "ns")
	}
	for i := 0; i < ns; i++ {
		q.Sub = append(q.Sub, queryGen(t, tris, depth-1))
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		q.Trigram = []string{g.Draw(t, "t")}
	}
	return q
}

// verify compares an opened index with the files it should hold.
func verify(t *rapid.T, ix *index.Index, fs []file, what string) {
	all := ix.PostingQuery(&index.Query{Op: index.QAll})
	if len(all) != len(fs) {
		t.Fatalf("%s: index holds %d files, %d were added", what, len(all), len(fs))
	}
	for i, f := range fs {
		if got := ix.Name(uint32(i)); got != f.name {
			t.Fatalf("%s: file %d is %q, want %q", what, i, got, f.name)
		}
	}
	m := model(fs)
	var tris []string
	for s := range m {
		tris = append(tris, s)
	}
	sort.Strings(tris)
	for _, s := range tris {
		if got := ix.PostingList(tri(s)); !eq(got, m[s]) {
			t.Fatalf("%s: trigram %q is listed for files %v, but occurs in %v of %d", what, s, got, m[s], len(fs))
		}
	}
	for i := 0; i < 6; i++ {
		s := rapid.StringMatching(`[abofr\x00\x{ff}z ]{3}`).Draw(t, "absent")[:3]
		if got := ix.PostingList(tri(s)); !eq(got, m[s]) {
			t.Fatalf("%s: trigram %q is listed for files %v, but occurs in %v", what, s, got, m[s])
		}
	}
	if len(tris) == 0 {
		tris = []string{"abc"}
	}
	for i := rapid.IntRange(0, 20).Draw(t, "queries"); i > 0; i-- {
		q := queryGen(t, tris, 2)
		want := sorted(eval(q, m, len(fs)))
		var got []uint32
		hx.Bounded(t, "posting query", func() { got = ix.PostingQuery(q) })
		if !eq(got, want) {
			t.Fatalf("%s: query %v gives files %v, want %v of %q", what, q, got, want, fs)
		}
		hx.Count(fmt.Sprintf("%s query=%v files=%q", what, q, fs), len(want) > 0 && len(want) < len(fs), "posting query")
	}
}

var anyBytes = rapid.Custom(func(t *rapid.T) string {
	return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
})

func filesGen(t *rapid.T, max int, label string) []file {
	var fs []file
	seen := map[string]bool{}
	for i := rapid.IntRange(0, max).Draw(t, label); i > 0; i-- {
		name := hx.PathGen().Draw(t, "name")
		if seen[name] {
			continue
		}
		seen[name] = true
		data := ""
		if rapid.IntRange(0, 7).Draw(t, "bin") == 0 {
			data = anyBytes.Draw(t, "data")
		} else {
			data = hx.TextGen(6).Draw(t, "text")
		}
		fs = append(fs, file{name, data})
	}
	return fs
}

func small(f file) bool { return isText(f.data) }

func isText(s string) bool { return strings.ToValidUTF8(s, "") == s }

func TestRoundTrip(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		fs := filesGen(t, 20, "files")
		path := filepath.Join(d, "tri")
		w := index.Create(path)
		roots := rapid.SliceOfN(rapid.SampledFrom([]string{"/a", "/b/c", "/x y", "/é"}), 0, 3).Draw(t, "roots")
		w.AddPaths(roots)
		taken := add(t, w, fs, small)
		ix := index.Open(path)
		defer ix.Close()
		if got := ix.Paths(); strings.Join(got, "|") != strings.Join(roots, "|") {
			t.Fatalf("paths %q, want %q", got, roots)
		}
		verify(t, ix, taken, "round trip")
		cls := []string{"round trip"}
		if len(taken) < len(fs) {
			cls = append(cls, "with refused files")
		}
		hx.Count(fmt.Sprintf("files=%q", fs), len(taken) > 1, cls...)
	})
}

var dirs = []string{"/r/a/", "/r/b/", "/r/c/", "/r/d/", "/r/b/x/", "/s/", "/r/"}

func treeOf(t *rapid.T, label string) ([]string, []file) {
	n := rapid.IntRange(0, 3).Draw(t, label)
	set := map[string]bool{}
	for i := 0; i < n; i++ {
		set[rapid.SampledFrom(dirs).Draw(t, "dir")] = true
	}
	var ps []string
	for p := range set {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	var fs []file
	seen := map[string]bool{}
	for _, p := range ps {
		for i := rapid.IntRange(0, 5).Draw(t, "files"); i > 0; i-- {
			name := p + rapid.SampledFrom([]string{"a", "b", "x/y", "x/z", "m", "zz", "0"}).Draw(t, "name")
			if !seen[name] {
				seen[name] = true
				fs = append(fs, file{name, hx.TextGen(4).Draw(t, "text")})
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	return ps, fs
}

func under(ps []string, name string) bool {
	for _, p := range ps {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// merged is the meaning of a merge: the second index owns its paths.
func merged(p1, p2 []string, f1, f2 []file) ([]string, []file) {
	var fs []file
	for _, f := range f1 {
		if !under(p2, f.name) {
			fs = append(fs, f)
		}
	}
	fs = append(fs, f2...)
	sort.Slice(fs, func(i, j int) bool { return fs[i].name < fs[j].name })
	all := append(append([]string{}, p1...), p2...)
	sort.Strings(all)
	var ps []string
	for _, p := range all {
		if len(ps) > 0 && strings.HasPrefix(p, ps[len(ps)-1]) {
			continue
		}
		ps = append(ps, p)
	}
	return ps, fs
}

func TestMerge(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		p1, f1 := treeOf(t, "n1")
		cur := filepath.Join(d, "i1")
		w := index.Create(cur)
		w.AddPaths(p1)
		add(t, w, f1, small)
		rounds := rapid.IntRange(1, 2).Draw(t, "merges")
		for r := 0; r < rounds; r++ {
			p2, f2 := treeOf(t, "n2")
			second := filepath.Join(d, fmt.Sprintf("s%d", r))
			w := index.Create(second)
			w.AddPaths(p2)
			add(t, w, f2, small)
			dst := filepath.Join(d, fmt.Sprintf("m%d", r))
			hx.Bounded(t, "merge", func() { index.Merge(dst, cur, second) })
			wantP, wantF := merged(p1, p2, f1, f2)
			ix := index.Open(dst)
			if got := ix.Paths(); strings.Join(got, "|") != strings.Join(wantP, "|") {
				t.Fatalf("merging %q with %q: paths %q, want %q", p1, p2, got, wantP)
			}
			verify(t, ix, wantF, fmt.Sprintf("merge of %q %q with %q %q", p1, names(f1), p2, names(f2)))
			ix.Close()
			hx.Count(fmt.Sprintf("merge %q %q with %q %q", p1, names(f1), p2, names(f2)), len(wantF) > len(f2) && len(f2) > 0, "merge")
			cur, p1, f1 = dst, wantP, wantF
		}
	})
}

func names(fs []file) []string {
	var out []string
	for _, f := range fs {
		out = append(out, f.name)
	}
	return out
}

type rng uint64

func (r *rng) next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_("

// rich makes a text with exactly want distinct trigrams.
func rich(r *rng, seen []uint32, stamp uint32, want int) string {
	b := make([]byte, 0, want+want/4)
	n := 0
	for n < want {
		c := alphabet[r.next()&63]
		if len(b)%100 == 99 {
			c = '\n'
		}
		b = append(b, c)
		if len(b) >= 3 {
			t := tri(string(b[len(b)-3:]))
			if seen[t] != stamp {
				seen[t] = stamp
				n++
			}
		}
	}
	return string(b)
}

// spillEntries is the number of (trigram, file) pairs the writer holds in
// memory; more than that goes through files. The volumes below are on both
// sides of its multiples, so the test does not depend on the exact number.
const spillEntries = 8 << 20

func TestSpill(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		seed := rng(rapid.Uint64().Draw(t, "seed"))
		total := rapid.SampledFrom([]int{spillEntries, spillEntries + 1, spillEntries + 70000, 2*spillEntries + 1, 2 * spillEntries, 2*spillEntries + 123457}).Draw(t, "entries")
		if hx.Tier() == "quick" {
			total = []int{spillEntries + 70000, 2*spillEntries + 123457, spillEntries, 2*spillEntries + 1}[hx.EnvInt("HX_SHARD", 0)%4]
		}
		seen := make([]uint32, 1<<24)
		path := filepath.Join(d, "tri")
		w := index.Create(path)
		post := map[uint32][]uint32{}
		var order []string
		left := total
		// a sample of trigrams is checked completely, all others by number
		watch := map[uint32]bool{}
		for i := 0; i < 600; i++ {
			var s [3]byte
			for j := range s {
				s[j] = alphabet[seed.next()&63]
			}
			watch[tri(string(s[:]))] = true
		}
		counts := make([]uint32, 1<<24)
		for id := uint32(0); left > 0; id++ {
			n := 19000
			if n > left {
				n = left
			}
			left -= n
			data := rich(&seed, seen, id+1, n)
			name := fmt.Sprintf("f%06d", id)
			if reason := w.Add(name, strings.NewReader(data)); reason != "" {
				t.Fatalf("file refused: %s", reason)
			}
			order = append(order, name)
			for tr := range trigramInts(data) {
				counts[tr]++
				if watch[tr] {
					post[tr] = append(post[tr], id)
				}
			}
		}
		hx.Bounded(t, "flush", w.Flush)
		w.Close()
		ix := index.Open(path)
		defer ix.Close()
		if n := len(ix.PostingQuery(&index.Query{Op: index.QAll})); n != len(order) {
			t.Fatalf("%d files, want %d", n, len(order))
		}
		for i, n := range order {
			if ix.Name(uint32(i)) != n {
				t.Fatalf("file %d is %q, want %q", i, ix.Name(uint32(i)), n)
			}
		}
		for tr := range counts {
			if counts[tr] == 0 {
				continue
			}
			got := ix.PostingList(uint32(tr))
			if len(got) != int(counts[tr]) {
				t.Fatalf("%d entries: trigram %06x is listed for %d files, occurs in %d", total, tr, len(got), counts[tr])
			}
			if watch[uint32(tr)] && !eq(got, post[uint32(tr)]) {
				t.Fatalf("%d entries: trigram %06x is listed for the wrong files", total, tr)
			}
		}
		hx.Count(fmt.Sprintf("%d entries in %d files", total, len(order)), true, "spilled")
	})
}

func trigramInts(s string) map[uint32]bool {
	has := make(map[uint32]bool, len(s))
	for i := 0; i+3 <= len(s); i++ {
		has[tri(s[i:i+3])] = true
	}
	return has
}
