// C24: the search API answers any request well-formedly and equals the index.
package c24

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var names = []string{"r", "hound-search/hound", "Repo Two", "é", "日本", "\"q\"", "<b>", "a&b=c", "100%", "a+b", "\U0001F600", "x\ny", "{}", "null", "__proto__", "r/../s", "R"}

// num is a number parameter: its text and what it may be taken for.
type num struct {
	text string
	vals []int
}

const huge = "99999999999999999999999"

func genLimit(t *rapid.T, def int) num {
	switch rapid.IntRange(0, 7).Draw(t, "limit kind") {
	case 0:
		return num{"", []int{def}}
	case 1, 2, 3:
		n := rapid.IntRange(0, 12).Draw(t, "limit")
		return num{fmt.Sprint(n), []int{n}}
	case 4:
		return num{rapid.SampledFrom([]string{"100000", "100001", "2147483648", "9223372036854775807", "9223372036854775808", huge}).Draw(t, "limit"), []int{100000}}
	case 5:
		return num{rapid.SampledFrom([]string{"-1", "-2", "-100000", "-9223372036854775809", "-" + huge}).Draw(t, "limit"), []int{-1}}
	case 6:
		return num{rapid.SampledFrom([]string{"x", "1.5", "1e1", "0x10", "1,000", "٣", "--1", "NaN", "1;2", "\x00", "null", "true", "[1]", "1:2", " "}).Draw(t, "limit"), []int{def}}
	}
	n := rapid.IntRange(0, 12).Draw(t, "limit")
	return num{rapid.SampledFrom([]string{"+%d", " %d", "%d ", "0%d", "00%d"}).Draw(t, "form"), []int{n, def}}.fill(n)
}

func (n num) fill(v int) num { n.text = strings.Replace(n.text, "%d", fmt.Sprint(v), 1); return n }

func genCtx(t *rapid.T) num {
	switch rapid.IntRange(0, 7).Draw(t, "ctx kind") {
	case 0:
		return num{"", []int{2}}
	case 1, 2, 3:
		n := rapid.IntRange(0, 20).Draw(t, "ctx")
		return num{fmt.Sprint(n), []int{n}}
	case 4:
		return num{rapid.SampledFrom([]string{"21", "22", "1000", "4294967296", "18014398509481984", "18446744073709551615", "18446744073709551616", huge}).Draw(t, "ctx"), []int{20}}
	case 5:
		return num{rapid.SampledFrom([]string{"-1", "-5", "-" + huge}).Draw(t, "ctx"), []int{2, 0}} // below the range, or malformed
	case 6:
		return num{rapid.SampledFrom([]string{"x", "1.5", "1e1", "0x10", "٣", "NaN", "\x00", "null", "1:2"}).Draw(t, "ctx"), []int{2}}
	}
	n := rapid.IntRange(0, 20).Draw(t, "ctx")
	return num{rapid.SampledFrom([]string{"+%d", " %d", "%d ", "0%d"}).Draw(t, "form"), []int{n, 2}}.fill(n)
}

// genRange makes a rng parameter and the (offset, limit) pairs it may mean.
func genRange(t *rapid.T) (string, [][2]int) {
	part := func(label string) num {
		switch rapid.IntRange(0, 6).Draw(t, label) {
		case 0:
			return num{"", []int{0}}
		case 1:
			return num{rapid.SampledFrom([]string{"1000000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", huge}).Draw(t, "big"), []int{1 << 30}}
		case 2:
			return num{rapid.SampledFrom([]string{"x", "-1", "1.5", "٣", "-" + huge, "1e1"}).Draw(t, "odd"), []int{0}}
		}
		n := rapid.IntRange(0, 5).Draw(t, label+" n")
		return num{fmt.Sprint(n), []int{n}}
	}
	switch rapid.IntRange(0, 5).Draw(t, "rng") {
	case 0, 1:
		return "", [][2]int{{0, 0}}
	case 2:
		return rapid.SampledFrom([]string{"3", "x", ";", "-", "1-2", "1,2"}).Draw(t, "rng text"), [][2]int{{0, 0}}
	}
	b, e := part("from"), part("count")
	return b.text + ":" + e.text, [][2]int{{b.vals[0], e.vals[0]}}
}

type flag struct {
	text string
	val  bool
}

func genFlag(t *rapid.T, label string) flag {
	return rapid.SampledFrom([]flag{{"", false}, {"true", true}, {"1", true}, {"fosho", true}, {"TRUE", true}, {"Fosho", true}, {"false", false}, {"0", false}, {"yes", false}, {"2", false}, {"true ", false}, {"nope", false}}).Draw(t, label)
}

// request puts the parameters into one of the forms a request may have.
func request(t *rapid.T, path string, v url.Values) *http.Request {
	enc := v.Encode()
	switch rapid.IntRange(0, 9).Draw(t, "form") {
	case 0:
		r := httptest.NewRequest("POST", path, strings.NewReader(enc))
		r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
		return r
	case 1:
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		for k, vs := range v {
			for _, s := range vs {
				hx.Must(w.WriteField(k, s))
			}
		}
		hx.Must(w.Close())
		r := httptest.NewRequest("POST", path, &b)
		r.Header.Set("Content-Type", w.FormDataContentType())
		return r
	case 2: // other parameters around
		return httptest.NewRequest("GET", path+"?x=1&"+enc+"&y=%zz&=&&z", nil)
	case 3: // the first value counts
		w := url.Values{}
		for k, vs := range v {
			w[k] = append(append([]string{}, vs...), "decoy")
		}
		return httptest.NewRequest("GET", path+"?"+w.Encode(), nil)
	}
	return httptest.NewRequest("GET", path+"?"+enc, nil)
}

// ask makes the request and checks that the answer is well-formed.
func ask(t hx.TB, h http.Handler, r *http.Request, what string) (int, map[string]interface{}) {
	w := httptest.NewRecorder()
	serve(t, h, w, r, what)
	if ct := w.Header().Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
		t.Fatalf("%s: content type %q", what, ct)
	}
	m, err := object(w.Body.Bytes())
	if err != nil {
		t.Fatalf("%s: the answer is not a JSON object: %v: %.300q", what, err, w.Body)
	}
	return w.Code, m
}

func object(b []byte) (m map[string]interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err = d.Decode(&m); err == nil {
		if _, e := d.Token(); e != io.EOF {
			err = fmt.Errorf("data after its end")
		}
	}
	return m, err
}

func serve(t hx.TB, h http.Handler, w http.ResponseWriter, r *http.Request, what string) {
	var crash interface{}
	hx.Bounded(t, "an answer to "+what, func() {
		defer func() { crash = recover() }()
		h.ServeHTTP(w, r)
	})
	if crash != nil {
		t.Fatalf("%s: crash: %v", what, crash)
	}
}

func generic(v interface{}) interface{} {
	b, err := json.Marshal(v)
	hx.Must(err)
	m, err := object(b)
	hx.Must(err)
	return m
}

type world struct {
	*hx.World
	idx   map[string]*searcher.Searcher
	mux   *http.ServeMux
	def   int
	lines []string
}

// start builds a world of searchers behind the API.
func start(t *rapid.T, d string, big bool) *world {
	w := &world{World: hx.NewWorld(d, 4), idx: map[string]*searcher.Searcher{}}
	used := rapid.SliceOfNDistinct(rapid.SampledFrom(names), 0, 4, rapid.ID[string]).Draw(t, "names")
	for i, n := range used {
		tr := hx.TreeGen(6, 8).Draw(t, "tree")
		if rapid.Bool().Draw(t, "long") {
			var b strings.Builder
			for i := 0; i < 60; i++ {
				fmt.Fprintf(&b, "%d\n", i)
				if i%29 == 28 {
					b.WriteString("foo needle\n")
				}
			}
			tr.AddPath("long", b.String())
		}
		if big && i == 0 {
			tr.AddPath("big", strings.Repeat("needle\n", 100100))
		}
		w.lines = append(w.lines, tr.AllLines()...)
		w.Add(n, fmt.Sprintf("fake://c24/%d", i), false, false, 5, tr)
	}
	for n, err := range w.Start(t) {
		t.Fatalf("%s: %v", n, err)
	}
	for _, r := range w.Repos {
		w.idx[r.Name] = r.S
	}
	w.def = rapid.SampledFrom([]int{5000, 5000, 1, 3, 0, -1}).Draw(t, "result-limit")
	w.mux = http.NewServeMux()
	api.Setup(w.mux, w.idx, w.def)
	return w
}

// query is one generated search request with the option sets it may mean.
type query struct {
	req   *http.Request
	what  string
	repos []string
	pat   string
	opts  []index.SearchOptions
	stats bool
}

func (w *world) gen(t *rapid.T, big bool) query {
	var q query
	v := url.Values{}
	set := func(k, s string) {
		if s != "" || rapid.Bool().Draw(t, "state "+k) {
			v.Set(k, s)
		}
	}
	q.pat = hx.PatternGen(w.lines).Draw(t, "pattern")
	if k := rapid.IntRange(0, 11).Draw(t, "odd pattern"); k == 0 {
		q.pat = rapid.SampledFrom([]string{"(", "[", "a**", "\\", "(?P<", "x{2,1}", "(?z)", "[[:nope:]]", "\xff", "a\x00b", "%", "+", strings.Repeat("(", 2000), "(((a{30}){30}){30}){30}", strings.Repeat("x", 5000)}).Draw(t, "bad")
	} else if k < 4 {
		q.pat = rapid.SampledFrom([]string{"needle", "foo", "", ".", "^"}).Draw(t, "simple")
	}
	if big {
		q.pat = "needle"
	}
	set("q", q.pat)
	switch rapid.IntRange(0, 3).Draw(t, "repos") {
	case 0:
		if rapid.Bool().Draw(t, "none") {
			set("repos", rapid.SampledFrom([]string{"", "nope", ",", "nope,nope", "r*"}).Draw(t, "unknown"))
			break
		}
		fallthrough
	case 1:
		v.Set("repos", rapid.SampledFrom([]string{"*", " *", "* "}).Draw(t, "all"))
		for n := range w.idx {
			q.repos = append(q.repos, n)
		}
	default:
		var l []string
		seen := map[string]bool{}
		for _, n := range rapid.SliceOfN(rapid.SampledFrom(append([]string{"nope", "", "R2"}, names...)), 1, 5).Draw(t, "list") {
			l = append(l, n)
			if w.idx[n] != nil && !seen[n] {
				q.repos = append(q.repos, n)
				seen[n] = true
			}
		}
		v.Set("repos", strings.Join(l, ","))
	}
	limit, ctx := genLimit(t, w.def), genCtx(t)
	if big {
		ctx = num{"0", []int{0}}
	}
	rng, pairs := genRange(t)
	i, lit, stats := genFlag(t, "i"), genFlag(t, "literal"), genFlag(t, "stats")
	q.stats = stats.val
	set("limit", limit.text)
	set("ctx", ctx.text)
	set("rng", rng)
	set("i", i.text)
	set("literal", lit.text)
	set("stats", stats.text)
	var files, not string
	fgen := rapid.SampledFrom([]string{"", "", "", "go$", "^a", "(", "[", ".", "x*", "a|b", "\xff", "(?i)FOO", "long"})
	files, not = fgen.Draw(t, "files"), fgen.Draw(t, "excludeFiles")
	set("files", files)
	set("excludeFiles", not)
	for _, l := range limit.vals {
		for _, c := range ctx.vals {
			for _, p := range pairs {
				q.opts = append(q.opts, index.SearchOptions{
					IgnoreCase: i.val, LiteralSearch: lit.val, FileRegexp: files, ExcludeFileRegexp: not,
					LinesOfContext: uint(c), MaxResults: l, Offset: p[0], Limit: p[1],
				})
			}
		}
	}
	q.req = request(t, "/api/v1/search", v)
	q.what = fmt.Sprintf("%s %q", q.req.Method, v)
	return q
}

// want is what the answer has to be with these options; nil: an error.
func (w *world) want(q query, opt index.SearchOptions) map[string]interface{} {
	res := map[string]interface{}{}
	for _, n := range q.repos {
		o := opt
		r, err := w.idx[n].Search(q.pat, &o)
		if err != nil {
			return nil
		}
		if len(r.Matches) > 0 {
			res[n] = generic(r)
		}
	}
	return res
}

// judge compares the answer with the direct searches.
func (w *world) judge(q query, code int, got map[string]interface{}) (hits int, err error) {
	if code != http.StatusOK && code != http.StatusBadRequest {
		return 0, fmt.Errorf("status %d", code)
	}
	msg, isErr := got["Error"]
	var last string
	for _, o := range q.opts {
		want := w.want(q, o)
		if want == nil {
			if s, ok := msg.(string); !ok || s == "" || len(got) != 1 {
				last = fmt.Sprintf("the direct search fails, the answer is %.300v", got)
				continue
			}
			return 0, nil
		}
		if isErr {
			last = fmt.Sprintf("error %v, the direct search has none", msg)
			continue
		}
		if code != http.StatusOK {
			last = fmt.Sprintf("status %d for results", code)
			continue
		}
		res, ok := got["Results"].(map[string]interface{})
		if !ok {
			last = fmt.Sprintf("no results: %.300v", got)
			continue
		}
		if !hx.Same(res, want) {
			x, _ := json.Marshal(res)
			y, _ := json.Marshal(want)
			last = fmt.Sprintf("results %.1000s, directly %.1000s (options %+v, repositories %q)", x, y, o, q.repos)
			continue
		}
		if st, ok := got["Stats"]; ok != q.stats || ok && st == nil {
			return 0, fmt.Errorf("stats: %v, want them: %v", st, q.stats)
		}
		return len(want), nil
	}
	return 0, fmt.Errorf("%s", last)
}

func TestSearch(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := start(t, d, false)
		defer w.Stop(t)
		var hist []string
		hits := 0
		var qs []query
		for k := rapid.IntRange(5, 30).Draw(t, "requests"); k > 0; k-- {
			q := w.gen(t, false)
			code, got := ask(t, w.mux, q.req, q.what)
			n, err := w.judge(q, code, got)
			if err != nil {
				t.Fatalf("%s: %v", q.what, err)
			}
			hits += n
			hist = append(hist, q.what)
		}
		// several at once
		for i := 0; i < 6; i++ {
			qs = append(qs, w.gen(t, false))
		}
		errs := make([]error, len(qs))
		hx.Bounded(t, "concurrent requests", func() {
			var wg sync.WaitGroup
			for i := range qs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					rec := httptest.NewRecorder()
					w.mux.ServeHTTP(rec, qs[i].req)
					got, err := object(rec.Body.Bytes())
					if err == nil {
						_, err = w.judge(qs[i], rec.Code, got)
					}
					errs[i] = err
				}(i)
			}
			wg.Wait()
		})
		for i, err := range errs {
			if err != nil {
				t.Fatalf("%s (among others): %v", qs[i].what, err)
			}
		}
		hx.Count(strings.Join(hist, "; "), hits > 0)
		hx.Class("requests", int64(len(hist)+len(qs)))
	})
}

// TestMany has more matches than the highest limit.
func TestMany(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := start(t, d, true)
		defer w.Stop(t)
		q := w.gen(t, true)
		code, got := ask(t, w.mux, q.req, q.what)
		n, err := w.judge(q, code, got)
		if err != nil {
			m := err.Error()
			t.Fatalf("%s: %s", q.what, m[:min(len(m), 1500)])
		}
		hx.Count(q.what, n > 0)
	})
}

// TestLists checks the repository list and the excluded files.
func TestLists(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, 4)
		want := map[string]map[string]bool{}
		for i, n := range rapid.SliceOfNDistinct(rapid.SampledFrom(names), 0, 3, rapid.ID[string]).Draw(t, "names") {
			tr := hx.TreeGen(4, 2).Draw(t, "tree")
			ex := map[string]bool{"binary-0": true}
			for k := rapid.IntRange(0, 3).Draw(t, "binaries"); k > 0; k-- {
				p := rapid.SampledFrom([]string{"b", "q\".bin", "nl\n.bin", "é", "<b>&", "d/x", "\u2028", "tab\t", "back\\slash", "100%d!", "%s"}).Draw(t, "p")
				if tr.AddPath(p, "\xff\x00") {
					ex[p] = true
				}
			}
			r := w.Add(n, fmt.Sprintf("fake://c24/%d", i), rapid.Bool().Draw(t, "poll"), rapid.Bool().Draw(t, "push"), 1000000, tr)
			r.Conf.DisplayName = rapid.SampledFrom([]string{"", "shown", "<é>"}).Draw(t, "display")
			r.Conf.UrlPattern = &config.UrlPattern{BaseUrl: "{url}/<b>", Anchor: rapid.SampledFrom([]string{"#L{line}", "#é&"}).Draw(t, "anchor")}
			want[n] = ex
		}
		for n, err := range w.Start(t) {
			t.Fatalf("%s: %v", n, err)
		}
		defer w.Stop(t)
		idx := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			idx[r.Name] = r.S
		}
		mux := http.NewServeMux()
		api.Setup(mux, idx, 5000)
		code, got := ask(t, mux, request(t, "/api/v1/repos", url.Values{}), "repos")
		if code != 200 || len(got) != len(idx) {
			t.Fatalf("repos: status %d, %v, want %d", code, got, len(idx))
		}
		for _, r := range w.Repos {
			g, _ := got[r.Name].(map[string]interface{})
			if g == nil {
				t.Fatalf("repos: %q is missing in %v", r.Name, got)
			}
			p, _ := g["url-pattern"].(map[string]interface{})
			if g["url"] != r.Conf.Url || g["display-name"] != r.Conf.DisplayName || p["base-url"] != r.Conf.UrlPattern.BaseUrl || p["anchor"] != r.Conf.UrlPattern.Anchor {
				t.Fatalf("repos: %q: %v, configured %+v", r.Name, g, r.Conf)
			}
		}
		some := false
		for _, n := range append([]string{"nope", ""}, names...) {
			req := request(t, "/api/v1/excludes", url.Values{"repo": {n}})
			if want[n] == nil {
				code, got := ask(t, mux, req, "excludes of "+n)
				if s, _ := got["Error"].(string); code != 404 || s == "" {
					t.Fatalf("excludes of unknown %q: status %d, %v", n, code, got)
				}
				continue
			}
			rec := httptest.NewRecorder()
			serve(t, mux, rec, req, "excludes of "+n)
			var l []struct{ Filename, Reason string }
			if err := json.Unmarshal(rec.Body.Bytes(), &l); err != nil || rec.Code != 200 {
				t.Fatalf("excludes of %q: status %d, %v: %.300q", n, rec.Code, err, rec.Body)
			}
			set := map[string]bool{}
			for _, f := range l {
				set[f.Filename] = true
				some = some || f.Filename != "binary-0"
			}
			if !hx.Same(set, want[n]) {
				t.Fatalf("excludes of %q: %s", n, hx.SetDiff(set, want[n]))
			}
			if rec.Body.String() != idx[n].GetExcludedFiles() {
				t.Fatalf("excludes of %q: %q, directly %q", n, rec.Body, idx[n].GetExcludedFiles())
			}
		}
		hx.Count(fmt.Sprint(want), some)
	})
}


// TestRaw sends requests made of random text.
func TestRaw(t *testing.T) {
	d, rm := hx.Scratch()
	defer rm()
	hx.Must(os.MkdirAll(filepath.Join(d, "db"), 0o755))
	idx := map[string]*searcher.Searcher{}
	w := hx.NewWorld(d, 4)
	w.Add("r", "fake://c24/raw", false, false, 5, hx.Tree{"a": "foo\nbar\n", "é": "ü foo\n"})
	for _, err := range w.Start(t) {
		t.Fatal(err)
	}
	defer w.Stop(t)
	for _, r := range w.Repos {
		idx[r.Name] = r.S
	}
	mux := http.NewServeMux()
	api.Setup(mux, idx, 5000)
	rapid.Check(t, func(t *rapid.T) {
		junk := func(label string) string {
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{"&", "=", "%", "%zz", "%00", "+", "q", "repos", "*", "r", "rng", ":", "1", "-", "ctx", "limit", "files", "(", "[", "a", "foo", "i", "stats", "literal", ";", "?", "#", "é", "\xff", "excludeFiles", ",", "repo", "9999999999999999999999", " "}), 0, 14).Draw(t, label), "")
		}
		method := rapid.SampledFrom([]string{"GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS", "PATCH", "X"}).Draw(t, "method")
		path := "/api/v1/" + rapid.SampledFrom([]string{"search", "repos", "excludes"}).Draw(t, "path")
		body := junk("body")
		esc := func(s string) string { return strings.NewReplacer(" ", "%20", "#", "%23", "\n", "").Replace(s) }
		text := method + " " + path + "?" + esc(junk("query")) + " HTTP/1.1\r\nHost: h\r\nContent-Type: " +
			rapid.SampledFrom([]string{"application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "multipart/form-data", "application/json", "", ";;"}).Draw(t, "type") +
			fmt.Sprintf("\r\nContent-Length: %d\r\n\r\n", len(body)) + body
		r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(text)))
		if err != nil {
			hx.Count(text, false)
			return
		}
		rec := httptest.NewRecorder()
		serve(t, mux, rec, r, fmt.Sprintf("%q", text))
		var v interface{}
		if err := json.Unmarshal(rec.Body.Bytes(), &v); err != nil {
			t.Fatalf("%q: no JSON: %v: %.300q", text, err, rec.Body)
		}
		if rec.Code >= 500 {
			t.Fatalf("%q: status %d", text, rec.Code)
		}
		hx.Count(text, true)
	})
}
