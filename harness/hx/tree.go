package hx

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/hound-search/hound/index"
)

// WriteTree writes the files below dir.
func WriteTree(dir string, tr Tree) {
	for p, d := range tr {
		full := filepath.Join(dir, filepath.FromSlash(p))
		Must(os.MkdirAll(filepath.Dir(full), 0o755))
		Must(os.WriteFile(full, []byte(d), 0o644))
	}
}

// SyncTree makes dir hold exactly the files of tr.
func SyncTree(dir string, tr Tree) {
	ents, err := os.ReadDir(dir)
	Must(err)
	for _, e := range ents {
		Must(os.RemoveAll(filepath.Join(dir, e.Name())))
	}
	WriteTree(dir, tr)
}

// Want is the expected answer of a search: path to hits.
type Want map[string][]Hit

// RefSearch is the reference search over a tree of text files.
func RefSearch(tr Tree, re *RefRe, ctx int) Want {
	w := Want{}
	for p, d := range tr {
		if hs := re.MatchText(d, ctx); len(hs) > 0 {
			w[p] = hs
		}
	}
	return w
}

// Got converts a response. dup tells whether a file is listed twice.
func Got(res *index.SearchResponse) (w Want, dup string) {
	w = Want{}
	for _, fm := range res.Matches {
		if _, has := w[fm.Filename]; has {
			dup = fm.Filename
		}
		for _, m := range fm.Matches {
			w[fm.Filename] = append(w[fm.Filename], Hit{No: m.LineNumber, Line: m.Line, Before: m.Before, After: m.After})
		}
	}
	return w, dup
}

func sameStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// DiffHits compares two hit lists; ctx says whether to compare context lines.
// It returns "" when equal.
func DiffHits(want, got []Hit, ctx bool) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(want):
			return sprintf("extra match at line %d: %s", got[i].No, Q(got[i].Line))
		case i >= len(got):
			return sprintf("missing match at line %d: %s", want[i].No, Q(want[i].Line))
		}
		w, g := want[i], got[i]
		if w.No != g.No || w.Line != g.Line {
			return sprintf("match %d: want line %d %s, got line %d %s", i, w.No, Q(w.Line), g.No, Q(g.Line))
		}
		if ctx && !sameStrs(w.Before, g.Before) {
			return sprintf("line %d: lines before: want %q, got %q", w.No, w.Before, g.Before)
		}
		if ctx && !sameStrs(w.After, g.After) {
			return sprintf("line %d: lines after: want %q, got %q", w.No, w.After, g.After)
		}
	}
	return ""
}

// Diff compares whole answers.
func Diff(want, got Want, ctx bool) string {
	names := map[string]bool{}
	for p := range want {
		names[p] = true
	}
	for p := range got {
		names[p] = true
	}
	var ps []string
	for p := range names {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if _, ok := got[p]; !ok {
			return sprintf("file %q: missing from the response (%d lines match, first %d %s)", p, len(want[p]), want[p][0].No, Q(want[p][0].Line))
		}
		if _, ok := want[p]; !ok {
			if len(got[p]) == 0 {
				return sprintf("file %q: listed without matches", p)
			}
			return sprintf("file %q: no line matches, but the response has line %d %s", p, got[p][0].No, Q(got[p][0].Line))
		}
		if d := DiffHits(want[p], got[p], ctx); d != "" {
			return sprintf("file %q: %s", p, d)
		}
	}
	return ""
}

// NumHits counts matching lines.
func (w Want) NumHits() int {
	n := 0
	for _, h := range w {
		n += len(h)
	}
	return n
}

// BuildIndex indexes a tree in scratch space. close removes everything.
func BuildIndex(t TB, tr Tree, opt *index.IndexOptions) (ix *index.Index, dir string, done func()) {
	d, rm := Scratch()
	src := filepath.Join(d, "src")
	Must(os.Mkdir(src, 0o755))
	WriteTree(src, tr)
	dst := filepath.Join(d, "idx")
	ref, err := index.Build(opt, dst, src, "url", "rev")
	if err != nil {
		rm()
		t.Fatalf("index build failed: %v\ntree: %v", err, tr)
	}
	ix, err = ref.Open()
	if err != nil {
		rm()
		t.Fatalf("index open failed: %v\ntree: %v", err, tr)
	}
	return ix, dst, func() {
		ix.Close()
		rm()
	}
}

// SnapshotDir reads all regular files below dir, by relative path.
func SnapshotDir(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			rel, _ := filepath.Rel(dir, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out
}

// Same is deep equality of snapshots.
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// FileSet is a sorted list of paths as one string, for messages.
func FileSet(ps []string) string {
	sort.Strings(ps)
	return strings.Join(ps, " ")
}

// SetDiff describes how a set of paths differs from the wanted one.
func SetDiff(got, want map[string]bool) string {
	var more, less []string
	for p := range got {
		if !want[p] {
			more = append(more, p)
		}
	}
	for p := range want {
		if !got[p] {
			less = append(less, p)
		}
	}
	sort.Strings(more)
	sort.Strings(less)
	return fmt.Sprintf("wrongly in: %.20q (%d), missing: %.20q (%d)", more[:min(len(more), 20)], len(more), less[:min(len(less), 20)], len(less))
}
