package c12

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"verifharness/hx"
)

// A tree so rich in trigrams that the index writer cannot hold them in memory.
func richTree(seed uint64) hx.Tree {
	tr := hx.Tree{}
	const alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_("
	next := func() uint64 {
		seed += 0x9e3779b97f4a7c15
		z := seed
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		return z ^ z>>31
	}
	for i := 0; i < 480; i++ {
		b := make([]byte, 0, 21000)
		for len(b) < 20400 { // fewer trigrams than make a file too rich
			if len(b)%100 == 99 {
				b = append(b, '\n')
				continue
			}
			b = append(b, alphabet[next()&63])
		}
		tr[fmt.Sprintf("d%d/f%03d", i/50, i)] = string(b) + fmt.Sprintf("\nquux %d\n", i)
	}
	return tr
}

var opened = regexp.MustCompile(`(?m)^\d+ +openat\(AT_FDCWD, "([^"]*)".* = (\d+)$`)

// TestSpillFails: errors where the writer moves its data to temporary files and
// back. A first run finds the calls that do so.
func TestSpillFails(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		tr := richTree(rapid.Uint64().Draw(t, "seed"))
		src, dst, tmp := filepath.Join(d, "src"), filepath.Join(d, "idx"), filepath.Join(d, "tmp")
		hx.Must(os.Mkdir(src, 0o755))
		hx.Must(os.Mkdir(tmp, 0o755))
		hx.WriteTree(src, tr)
		env := []string{"C12_CHILD=1", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "TMPDIR=" + tmp}
		b, _ := json.Marshal(job{Kind: "build", Src: src, Dst: dst})
		e := hx.Child{Strace: []string{"-e", "trace=openat"}, Env: env, Stdin: b}.Run()
		if !strings.Contains(e.Out, "BUILT") {
			t.Fatalf("the build without injected failures: %s", hx.Tail(e.Out+e.Err, 1500))
		}
		type at struct{ call, fd string }
		points := map[string][]at{}
		for _, m := range opened.FindAllStringSubmatch(e.Trace, -1) {
			if !strings.HasPrefix(m[1], tmp) {
				continue
			}
			if strings.Contains(m[1], "csearch-index") {
				points["mmap of a run"] = append(points["mmap of a run"], at{"mmap", m[2]})
				points["write of a run"] = append(points["write of a run"], at{"write", m[2]})
			} else {
				points["write"] = append(points["write"], at{"write", m[2]})
				points["copy"] = append(points["copy"], at{"copy_file_range", m[2]})
			}
		}
		kinds := hx.Keys(points)
		if len(kinds) == 0 {
			hx.Count("no temporary files", false)
			return
		}
		lits := []string{"quux 47", "quux 1", "zzz", "Ab(", "0_9"}
		files, hits := want(tr, lits)
		for _, kind := range kinds {
			p := rapid.SampledFrom(points[kind]).Draw(t, "point")
			errno := rapid.SampledFrom([]string{"ENOSPC", "EDQUOT", "EIO"}).Draw(t, "error")
			if p.call == "mmap" {
				errno = "ENOMEM"
			}
			what := fmt.Sprintf("%s: %s on descriptor %s fails with %s", kind, p.call, p.fd, errno)
			hx.Must(os.RemoveAll(dst))
			e := hx.Child{Strace: []string{"-e", "trace=" + p.call, "--trace-fds=" + p.fd, "-e", fmt.Sprintf("inject=%s:error=%s:when=1", p.call, errno)}, Env: env, Stdin: b}.Run()
			hit := failed.FindString(e.Trace)
			outcome := "stopped or failed"
			if strings.Contains(e.Out, "BUILT") {
				outcome = "built"
				b, _ := json.Marshal(job{Kind: "read", Dst: dst, Lits: lits})
				v := hx.Child{Env: env, Stdin: b}.Run()
				k := strings.Index(v.Out, "CONTENT ")
				if k < 0 {
					t.Fatalf("%s: the build reported success, but its index cannot be used: %s", what, hx.Tail(v.Out+v.Err, 1500))
				}
				var r result
				hx.Must(json.Unmarshal([]byte(v.Out[k+8:]), &r))
				if r.Err != "" || !hx.Same(r.Files, files) {
					t.Fatalf("%s (%s): the build reported success, but the index holds %s %s", what, hit, r.Err, hx.Tail(short(r.Files), 1000))
				}
				if !hx.Same(r.Hits, hits) {
					t.Fatalf("%s (%s): the build reported success, but searching finds %s\nwant %s", what, hit, hx.Tail(shortHits(r.Hits), 1000), hx.Tail(shortHits(hits), 1000))
				}
			}
			hx.Count(fmt.Sprintf("%d entries, %s: %s", 480*20400, what, outcome), hit != "", "temporary files: "+kind+": "+outcome)
		}
	})
}
