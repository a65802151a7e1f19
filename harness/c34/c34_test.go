// C34: the memory of a search is bounded, and released. Generated expressions
// with very many states on generated trees, and histories of different searches.
package c34

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

const mib = 1 << 20

// live is what the last collection found in use.
func live() int64 {
	s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
	metrics.Read(s)
	return int64(s[0].Value.Uint64())
}

func rest() int64 {
	runtime.GC()
	runtime.GC()
	return live()
}

// peak is how much more memory is in use at most while fn runs, than before.
// It stops the program when that is far more than what is allowed.
func peak(fn func()) int64 {
	before := rest()
	var most atomic.Int64
	stop, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(5 * time.Millisecond):
			}
			runtime.GC()
			if n := live(); n > most.Load() {
				most.Store(n)
			}
		}
	}()
	fn()
	close(stop)
	<-done
	return most.Load() - before
}

// TestPeak: searches for expressions with many states.
func TestPeak(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		tr := hx.Tree{}
		pat := ""
		size := 0
		files := rapid.IntRange(1, 4).Draw(t, "files")
		for i := 0; i < files; i++ {
			p, text := hx.States(t, rapid.IntRange(100000, 200000).Draw(t, "size")/files)
			if pat == "" || rapid.Bool().Draw(t, "pattern") {
				pat = p
			}
			tr[fmt.Sprintf("f%d", i)] = text
			size += len(text)
		}
		ix, _, done := hx.BuildIndex(t, tr, &index.IndexOptions{})
		defer done()
		opt := &index.SearchOptions{
			IgnoreCase:     rapid.Bool().Draw(t, "icase"),
			LinesOfContext: uint(rapid.IntRange(0, 3).Draw(t, "context")),
			Limit:          rapid.SampledFrom([]int{0, 0, 1}).Draw(t, "limit"),
		}
		matches := 0
		var res *index.SearchResponse
		var err error
		more := peak(func() {
			hx.Bounded(t, fmt.Sprintf("search %q", pat), func() {
				res, err = ix.Search(pat, opt)
			})
		})
		if err != nil {
			t.Fatalf("search %q: %v", pat, err)
		}
		for _, f := range res.Matches {
			matches += len(f.Matches)
		}
		if more > 80*mib {
			t.Fatalf("search %q in %d bytes takes %d MiB", pat, size, more/mib)
		}
		hx.Count(fmt.Sprintf("%q %+v in %d bytes: %d MiB", pat, *opt, size, more/mib), more > 4*mib)
		hx.Class("searches with matches", int64(min(matches, 1)))
	})
}

// TestKept: many different searches, none of which leaves anything behind.
func TestKept(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, 2)
		for i := rapid.IntRange(1, 2).Draw(t, "repos"); i > 0; i-- {
			_, text := hx.States(t, 6000)
			w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c34/%d", i), false, true, 1000, hx.Tree{"f": text, "g": strings.Repeat("foo bar\n", 50), "x.bin": "\xff\xfe\x00"})
		}
		if errs := w.Start(t); len(errs) > 0 {
			t.Fatalf("start: %v", errs)
		}
		defer w.Stop(t)
		idx := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			idx[r.Name] = r.S
		}
		mux := http.NewServeMux()
		api.Setup(mux, idx, config.Config{ResultLimit: 5000}.ResultLimit)
		no := 0
		get := func(method, u string) {
			hx.Bounded(t, u, func() { mux.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest(method, u, nil)) })
		}
		kind := rapid.SampledFrom([]string{"states", "words", "long", "bad", "filters", "excludes", "updates"}).Draw(t, "kind")
		pat, _ := hx.States(t, 1)
		one := func() {
			no++
			v := url.Values{"repos": {"*"}}
			switch kind {
			case "states":
				v.Set("q", fmt.Sprintf("%s|q%d", pat, no))
			case "words":
				v.Set("q", fmt.Sprintf("foo|w%d", no))
				v.Set("i", fmt.Sprint(no%2))
			case "long":
				v.Set("q", strings.Repeat(fmt.Sprintf("foo%d", no), 2000))
				v.Set("literal", "true")
			case "bad":
				v.Set("q", strings.Repeat(fmt.Sprintf("foo%d", no), 2000)+"(")
			case "filters":
				v.Set("q", "foo")
				v.Set("files", fmt.Sprintf("f|%d", no)+strings.Repeat("x", 4000))
				v.Set("excludeFiles", fmt.Sprintf("e|%d", no)+strings.Repeat("y", 4000))
			case "excludes":
				get("GET", "/api/v1/excludes?repo="+w.Repos[no%len(w.Repos)].Name+"&x="+strings.Repeat(fmt.Sprint(no), 1000))
				return
			case "updates":
				get("POST", "/api/v1/update?repos="+w.Repos[no%len(w.Repos)].Name+","+strings.Repeat(fmt.Sprint(no), 1000))
				return
			}
			get("GET", "/api/v1/search?"+v.Encode())
		}
		n := 60
		if kind != "states" {
			n = 400
		}
		for i := 0; i < 20; i++ {
			one()
		}
		first := rest()
		for i := 0; i < n; i++ {
			one()
		}
		// what is left of updates and of connections goes away by itself
		var last int64
		for i := 0; i < 40; i++ {
			if last = rest(); last-first < 2*mib {
				break
			}
			time.Sleep(100 * time.Millisecond)
		}
		if last-first >= 2*mib {
			t.Fatalf("after %d more requests of the kind %q (%q) %d KiB more are in use: %d", n, kind, pat, (last-first)/1024, last)
		}
		hx.Count(fmt.Sprintf("%s %q", kind, pat), true)
	})
}

