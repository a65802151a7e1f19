package c07

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"github.com/hound-search/hound/codesearch/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

// special trigrams; few files have them, with gaps on both sides of the
// lengths of the encoding's numbers
var special = []string{"aaa", "abc", "b\nc", "\x00\x00\x01", "zzz", "\x7f\x7f\x7f", "\xf4\x8f\xbf"}

func contentOf(s string) string {
	if s == "\xf4\x8f\xbf" {
		return "\U0010FFFF"
	}
	return s
}

// gaps draws increasing numbers below n.
func gaps(t *rapid.T, n int) []int {
	var out []int
	at := -1
	for i := rapid.IntRange(0, 6).Draw(t, "occurrences"); i > 0; i-- {
		g := rapid.SampledFrom([]int{1, 2, 127, 128, 129, 16383, 16384, 16385, 65535, 65536, 65537, 1<<21 - 1, 1 << 21, 1<<21 + 1}).Draw(t, "gap")
		if at+g >= n {
			g = rapid.IntRange(1, max(1, min(300, n-at-1))).Draw(t, "short gap")
		}
		if at += g; at >= n {
			break
		}
		out = append(out, at)
	}
	return out
}

func manyGen(t *rapid.T, n int) map[string][]int {
	at := map[string][]int{}
	for _, s := range special {
		at[s] = gaps(t, n)
	}
	return at
}

// writeMany adds n files, nearly all of them with the same content.
func writeMany(t *rapid.T, w *index.IndexWriter, n int, at map[string][]int, filler string, name func(int) string) {
	data := map[int]string{}
	for s, ids := range at {
		for _, id := range ids {
			data[id] += contentOf(s) + "\n\n"
		}
	}
	for i := 0; i < n; i++ {
		d, ok := data[i]
		if !ok {
			d = filler
		}
		if reason := w.Add(name(i), strings.NewReader(d)); reason != "" {
			t.Fatalf("file %d was refused: %s", i, reason)
		}
	}
	w.Flush()
	w.Close()
}

func checkMany(t *rapid.T, what string, ix *index.Index, n int, want map[string][]uint32, name func(int) string) {
	all := ix.PostingQuery(&index.Query{Op: index.QAll})
	if len(all) != n {
		t.Fatalf("%s: the index holds %d files, want %d", what, len(all), n)
	}
	for i := 0; i < n; i++ {
		if got := ix.Name(uint32(i)); got != name(i) {
			t.Fatalf("%s: file %d is %q, want %q", what, i, got, name(i))
		}
	}
	for _, s := range special {
		if got := ix.PostingList(tri(s)); !eq(got, want[s]) {
			t.Fatalf("%s: trigram %q is listed for files %v, want %v", what, s, got, want[s])
		}
	}
	for i := 0; i < 10; i++ {
		q := queryGen(t, special, 2)
		w := sorted(eval(q, want, n))
		if got := ix.PostingQuery(q); !eq(got, w) {
			t.Fatalf("%s: query %v gives %d files, want %d (%v)", what, q, len(got), len(w), w[:min(len(w), 10)])
		}
	}
}

func ids(m map[string][]int) map[string][]uint32 {
	out := map[string][]uint32{}
	for s, l := range m {
		for _, i := range l {
			out[s] = append(out[s], uint32(i))
		}
	}
	return out
}

// TestMany: numbers of files and distances between the files that have a
// trigram on both sides of what the index encodes in one byte more.
func TestMany(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		n := rapid.SampledFrom([]int{127, 128, 129, 300, 16384, 16385, 20000, 40000, 65536, 65537, 70000, 140000, 1<<21 + 10}).Draw(t, "n")
		at := manyGen(t, n)
		filler := rapid.SampledFrom([]string{"", "x", "qqq", "some line\n"}).Draw(t, "filler")
		name := func(i int) string { return fmt.Sprintf("d%02d/f%07d", i/1000, i) }
		path := filepath.Join(d, "tri")
		w := index.Create(path)
		writeMany(t, w, n, at, filler, name)
		ix := index.Open(path)
		defer ix.Close()
		checkMany(t, fmt.Sprintf("%d files", n), ix, n, ids(at), name)
		hx.Count(fmt.Sprintf("%d files, filler %q, %v", n, filler, at), true, "many files")
	})
}

func TestManyMerge(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		// the first index has the paths /a/, /b/ and /c/, the second /b/
		size := func(l string) int {
			return rapid.SampledFrom([]int{0, 1, 5, 127, 128, 129, 200, 16383, 16384, 16385, 65536, 70000}).Draw(t, l)
		}
		na, nb, nc, n2 := size("a"), size("b"), size("c"), size("second b")
		n1 := na + nb + nc
		at1 := manyGen(t, n1)
		at2 := manyGen(t, n2)
		name1 := func(i int) string {
			p := "/a/"
			if i >= na+nb {
				p = "/c/"
			} else if i >= na {
				p = "/b/"
			}
			return fmt.Sprintf("%sf%07d", p, i)
		}
		name2 := func(i int) string { return fmt.Sprintf("/b/g%07d", i) }
		p1, p2, p3 := filepath.Join(d, "1"), filepath.Join(d, "2"), filepath.Join(d, "3")
		w := index.Create(p1)
		w.AddPaths([]string{"/a/", "/b/", "/c/"})
		writeMany(t, w, n1, at1, "qqq", name1)
		w = index.Create(p2)
		w.AddPaths([]string{"/b/"})
		writeMany(t, w, n2, at2, "some line\n", name2)
		hx.Bounded(t, "merge", func() { index.Merge(p3, p1, p2) })
		want := map[string][]uint32{}
		for _, s := range special {
			for _, i := range at1[s] {
				if i < na {
					want[s] = append(want[s], uint32(i))
				}
			}
			for _, i := range at2[s] {
				want[s] = append(want[s], uint32(i+na))
			}
			for _, i := range at1[s] {
				if i >= na+nb {
					want[s] = append(want[s], uint32(i-nb+n2))
				}
			}
		}
		ix := index.Open(p3)
		defer ix.Close()
		what := fmt.Sprintf("merge of %d+%d+%d files with %d", na, nb, nc, n2)
		checkMany(t, what, ix, na+n2+nc, want, func(i int) string {
			if i < na {
				return name1(i)
			}
			if i < na+n2 {
				return name2(i - na)
			}
			return name1(i - n2 + nb)
		})
		hx.Count(fmt.Sprintf("%s: %v and %v", what, at1, at2), na+nc > 0 && n2 > 0, "merge of many files")
	})
}
