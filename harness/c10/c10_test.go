// C10: an index is an immutable snapshot that survives reopening. Generated
// histories of searches, source changes, concurrent searches and reopens (in
// this and in another process), against the answers computed from the tree
// that was indexed.
package c10

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/hound-search/hound/index"
	"pgregory.net/rapid"
	"verifharness/hx"
)

type query struct {
	Pat string
	IC  bool
	Ctx uint
}

type answer struct {
	Url, Rev, RevOpen string
	Auto              []string
	Res               []*index.SearchResponse
}

func TestMain(m *testing.M) {
	if dir := os.Getenv("C10_CHILD"); dir != "" {
		var qs []query
		hx.Must(json.NewDecoder(os.Stdin).Decode(&qs))
		a, err := ask(dir, qs)
		if err != nil {
			fmt.Println("error:", err)
			os.Exit(1)
		}
		json.NewEncoder(os.Stdout).Encode(a)
		os.Exit(0)
	}
	hx.Main(m)
}

func opts(q query) *index.SearchOptions {
	return &index.SearchOptions{IgnoreCase: q.IC, LinesOfContext: q.Ctx}
}

func ask(dir string, qs []query) (*answer, error) {
	ref, err := index.Read(dir)
	if err != nil {
		return nil, err
	}
	ix, err := index.Open(dir)
	if err != nil {
		return nil, err
	}
	defer ix.Close()
	a := &answer{Url: ref.Url, Rev: ref.Rev, RevOpen: ix.Ref.Rev, Auto: ref.AutoGeneratedFiles}
	for _, q := range qs {
		res, err := ix.Search(q.Pat, opts(q))
		if err != nil {
			return nil, err
		}
		a.Res = append(a.Res, res)
	}
	return a, nil
}

func norm(r *index.SearchResponse) string {
	b, _ := json.Marshal(r)
	return string(b)
}

func TestSnapshot(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		src, dst := filepath.Join(d, "src"), filepath.Join(d, "idx")
		hx.Must(os.Mkdir(src, 0o755))
		tr := hx.TreeGen(8, 10).Draw(t, "tree")
		if rapid.IntRange(0, 29).Draw(t, "big") == 7 {
			tr.AddPath("big", strings.Repeat("a big file with foo and bar in it"+strings.Repeat(" .", 500)+"\n", 1100))
		}
		hx.WriteTree(src, tr)
		url := rapid.StringMatching(`[a-z:/@é"\\]{0,12}`).Draw(t, "url")
		rev := rapid.StringMatching(`[0-9a-fé ]{0,12}`).Draw(t, "rev")
		var auto []string
		for _, p := range tr.Paths() {
			if rapid.IntRange(0, 3).Draw(t, "auto") == 0 {
				auto = append(auto, p)
			}
		}
		opt := &index.IndexOptions{AutoGeneratedFiles: auto}
		ref, err := index.Build(opt, dst, src, url, rev)
		if err != nil {
			t.Fatalf("build: %v", err)
		}
		ix, err := ref.Open()
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		closed := false
		defer func() {
			if !closed {
				ix.Close()
			}
		}()
		lines := tr.AllLines()
		var qs []query
		var refs []hx.Want
		for i := rapid.IntRange(1, 6).Draw(t, "queries"); i > 0; i-- {
			q := query{Pat: hx.PatternGen(lines).Draw(t, "pat"), IC: rapid.Bool().Draw(t, "ic"), Ctx: uint(rapid.IntRange(0, 3).Draw(t, "ctx"))}
			re, err := hx.ParseRef(index.GetRegexpPattern(q.Pat, q.IC))
			if err != nil {
				continue
			}
			qs = append(qs, q)
			refs = append(refs, hx.RefSearch(tr, re, int(q.Ctx)))
		}
		base := make([]string, len(qs))
		verify := func(ix *index.Index, when string) {
			for i, q := range qs {
				res, err := ix.Search(q.Pat, opts(q))
				if err != nil {
					t.Fatalf("%s: search %q failed: %v", when, q.Pat, err)
				}
				got, _ := hx.Got(res)
				if diff := hx.Diff(refs[i], got, true); diff != "" {
					t.Fatalf("%s: search %q: %s\ntree: %v", when, q.Pat, diff, tr)
				}
				n := norm(res)
				if base[i] == "" {
					base[i] = n
				}
				if n != base[i] {
					t.Fatalf("%s: search %q answered\n%s\nfirst it answered\n%s", when, q.Pat, n, base[i])
				}
			}
		}
		verify(ix, "at first")
		before := hx.SnapshotDir(dst)
		var hist []string
		nontrivial := 0
		for step := rapid.IntRange(1, 6).Draw(t, "steps"); step > 0; step-- {
			switch op := rapid.IntRange(0, 5).Draw(t, "op"); op {
			case 0, 1: // the source changes
				if rapid.Bool().Draw(t, "gone") {
					hx.Must(os.RemoveAll(src))
					hx.Must(os.Mkdir(src, 0o755))
					hist = append(hist, "source removed")
				} else {
					for p := range tr {
						os.Remove(filepath.Join(src, p))
						os.MkdirAll(filepath.Dir(filepath.Join(src, p)), 0o755)
						os.WriteFile(filepath.Join(src, p), []byte("other foo content\n"), 0o644)
					}
					hist = append(hist, "source rewritten")
				}
				nontrivial++
				verify(ix, "after the source changed")
			case 2: // concurrent searches
				var wg sync.WaitGroup
				errs := make(chan string, 64)
				workers := rapid.IntRange(2, 6).Draw(t, "workers")
				for w := 0; w < workers; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						for k := range qs {
							i := (k + w) % len(qs)
							res, err := ix.Search(qs[i].Pat, opts(qs[i]))
							if err != nil {
								errs <- fmt.Sprintf("concurrent search %q failed: %v", qs[i].Pat, err)
							} else if n := norm(res); n != base[i] {
								errs <- fmt.Sprintf("concurrent search %q answered\n%s\nalone it answered\n%s", qs[i].Pat, n, base[i])
							}
						}
					}(w)
				}
				wg.Wait()
				select {
				case e := <-errs:
					t.Fatalf("%s", e)
				default:
				}
				hist = append(hist, fmt.Sprintf("%d concurrent searchers", workers))
			case 3: // reopen
				if err := ix.Close(); err != nil {
					t.Fatalf("close: %v", err)
				}
				closed = true
				nix, err := index.Open(dst)
				if err != nil {
					t.Fatalf("reopen: %v", err)
				}
				ix, closed = nix, false
				verify(ix, "after reopening")
				if ix.Ref.Url != url || ix.Ref.Rev != rev || strings.Join(ix.Ref.AutoGeneratedFiles, "|") != strings.Join(auto, "|") {
					t.Fatalf("reopened index records url %q rev %q auto %q, want %q %q %q", ix.Ref.Url, ix.Ref.Rev, ix.Ref.AutoGeneratedFiles, url, rev, auto)
				}
				hist = append(hist, "reopened")
				nontrivial++
			case 4: // a second handle
				a, err := ask(dst, qs)
				if err != nil {
					t.Fatalf("second handle: %v", err)
				}
				compare(t, a, base, url, rev, auto, "second handle")
				verify(ix, "after a second handle was closed")
				hist = append(hist, "second handle")
				nontrivial++
			case 5: // another process
				if rapid.IntRange(0, 1).Draw(t, "fork") == 0 {
					continue
				}
				b, _ := json.Marshal(qs)
				cmd := exec.Command("/proc/self/exe")
				cmd.Env = append(os.Environ(), "C10_CHILD="+dst)
				cmd.Stdin = strings.NewReader(string(b))
				out, err := cmd.Output()
				if err != nil {
					t.Fatalf("another process cannot use the index: %v %s", err, out)
				}
				var a answer
				if err := json.Unmarshal(out, &a); err != nil {
					hx.Env("child output: %v", err)
				}
				compare(t, &a, base, url, rev, auto, "another process")
				hist = append(hist, "another process")
				nontrivial++
			}
		}
		if after := hx.SnapshotDir(dst); !hx.Same(before, after) {
			t.Fatalf("searching changed the files of the index: %v", hist)
		}
		hx.Count(fmt.Sprintf("%v queries=%+v tree=%v", hist, qs, tr), nontrivial > 0 && len(qs) > 0, hist...)
	})
}

func compare(t *rapid.T, a *answer, base []string, url, rev string, auto []string, who string) {
	if a.Url != url || a.Rev != rev || a.RevOpen != rev || strings.Join(a.Auto, "|") != strings.Join(auto, "|") {
		t.Fatalf("%s: url %q rev %q/%q auto %q, want %q %q %q", who, a.Url, a.Rev, a.RevOpen, a.Auto, url, rev, auto)
	}
	for i, r := range a.Res {
		if n := norm(r); n != base[i] {
			t.Fatalf("%s answered\n%s\nwant\n%s", who, n, base[i])
		}
	}
}
