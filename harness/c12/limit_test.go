package c12

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/hx"
)

// judge runs a build and, if it reports success, compares the index with the tree.
func judge(t *rapid.T, what string, j job, env []string, tr hx.Tree, lits []string) (outcome string) {
	hx.Must(os.RemoveAll(j.Dst))
	b, _ := json.Marshal(j)
	e := hx.Child{Env: env, Stdin: b}.Run()
	if e.Hang {
		return "hangs"
	}
	if !strings.Contains(e.Out, "BUILT") {
		if _, err := os.Stat(j.Dst); strings.Contains(e.Out, "ERROR") && err == nil {
			t.Fatalf("%s: the failed build left its directory behind", what)
		}
		if strings.Contains(e.Out, "ERROR") {
			return "error reported"
		}
		return "process stopped"
	}
	b, _ = json.Marshal(job{Kind: "read", Dst: j.Dst, Lits: lits})
	v := hx.Child{Env: env, Stdin: b}.Run()
	k := strings.Index(v.Out, "CONTENT ")
	if k < 0 {
		t.Fatalf("%s: the build reported success, but its index cannot be used: %s", what, hx.Tail(v.Out+v.Err, 1500))
	}
	var r result
	hx.Must(json.Unmarshal([]byte(v.Out[k+8:]), &r))
	files, hits := want(tr, lits)
	if r.Err != "" || !hx.Same(r.Files, files) {
		t.Fatalf("%s: the build reported success, but the index holds %s %s", what, r.Err, hx.Tail(short(r.Files), 1000))
	}
	if !hx.Same(r.Hits, hits) {
		t.Fatalf("%s: the build reported success, but searching finds %s\nwant %s", what, hx.Tail(shortHits(r.Hits), 1000), hx.Tail(shortHits(hits), 1000))
	}
	if len(r.Excl) != 0 {
		t.Fatalf("%s: the build reported success, and excluded %q", what, r.Excl)
	}
	return "built"
}

// TestFull: files cannot grow beyond a size, as if the disk were full: what is
// written up to there stays, the rest fails.
func TestFull(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		src, dst, tmp := filepath.Join(d, "src"), filepath.Join(d, "idx"), filepath.Join(d, "tmp")
		hx.Must(os.Mkdir(src, 0o755))
		hx.Must(os.Mkdir(tmp, 0o755))
		env := []string{"C12_CHILD=1", "TMPDIR=" + tmp}
		tr := genTree(t)
		if rapid.IntRange(0, 3).Draw(t, "random") == 0 {
			// does not compress well
			for p, s := range richTree(rapid.Uint64().Draw(t, "seed")) {
				if len(tr) < 20 {
					tr.AddPath(p, s)
				}
			}
		}
		hx.WriteTree(src, tr)
		lits := []string{"foo", "quux", "a"}
		for n := rapid.IntRange(2, 6).Draw(t, "builds"); n > 0; n-- {
			limit := uint64(rapid.IntRange(1, 1<<rapid.IntRange(1, 21).Draw(t, "order")).Draw(t, "limit"))
			what := fmt.Sprintf("files cannot be larger than %d bytes", limit)
			outcome := judge(t, what, job{Kind: "build", Src: src, Dst: dst, Limit: limit}, env, tr, lits)
			hx.Count(fmt.Sprintf("%s: %s; tree %v", what, outcome, tr), outcome != "built", "full: "+outcome)
		}
	})
}

// TestSpillFull is that for temporary files of the index writer.
func TestSpillFull(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		src, dst, tmp := filepath.Join(d, "src"), filepath.Join(d, "idx"), filepath.Join(d, "tmp")
		hx.Must(os.Mkdir(src, 0o755))
		hx.Must(os.Mkdir(tmp, 0o755))
		env := []string{"C12_CHILD=1", "TMPDIR=" + tmp}
		tr := richTree(rapid.Uint64().Draw(t, "seed"))
		hx.WriteTree(src, tr)
		lits := []string{"quux 47", "quux 1", "zzz", "Ab(", "0_9"}
		for n := 2; n > 0; n-- {
			limit := uint64(rapid.IntRange(1<<20, 64<<20+4096).Draw(t, "limit"))
			if n == 1 {
				limit = 64<<20 - uint64(rapid.IntRange(1, 1<<16).Draw(t, "short of the run"))
			}
			what := fmt.Sprintf("files cannot be larger than %d bytes", limit)
			outcome := judge(t, what, job{Kind: "build", Src: src, Dst: dst, Limit: limit}, env, tr, lits)
			hx.Count(fmt.Sprintf("%d files of random text, %s: %s", len(tr), what, outcome), outcome != "built", "full, large: "+outcome)
		}
	})
}
