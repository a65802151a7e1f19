// C23: nothing configured under vcs-config reaches a client.
package c23

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/web"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

type obj = map[string]interface{}

// secrets are the values configured, as the texts to look for.
type secrets struct {
	vals []string
	n    int
}

// word makes a text that occurs nowhere else.
func (s *secrets) word(t *rapid.T) string {
	s.n++
	w := fmt.Sprintf("Zq%dXwV%sQz", s.n, rapid.StringMatching(`[a-zA-Z0-9]{6,12}`).Draw(t, "word"))
	s.vals = append(s.vals, w)
	return w
}

func (s *secrets) num(t *rapid.T) int {
	s.n++
	n := 7000000000000 + s.n*100000000 + rapid.IntRange(10000000, 99999999).Draw(t, "num")
	s.vals = append(s.vals, fmt.Sprint(n))
	return n
}

func (s *secrets) val(t *rapid.T, depth int) interface{} {
	switch k := rapid.IntRange(0, 7).Draw(t, "val"); {
	case k == 0:
		return s.num(t)
	case k == 1:
		return float64(s.num(t)) + 0.5
	case k == 2 && depth > 0:
		return []interface{}{s.val(t, depth-1), s.val(t, depth-1)}
	case k == 3 && depth > 0:
		return s.conf(t, depth-1)
	case k == 4:
		return s.word(t) + rapid.SampledFrom([]string{" ", "\"", "\\", "é", "<", "\x00", "@", ":"}).Draw(t, "special") + s.word(t)
	}
	return s.word(t)
}

var keys = []string{"username", "password", "token", "key", "ssh-key", "auth", "Title", "url", "base-url", "anchor", "display-name", "url-pattern", "title", "é"}

func (s *secrets) conf(t *rapid.T, depth int) obj {
	o := obj{}
	for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
		o[rapid.SampledFrom(keys).Draw(t, "key")] = s.val(t, depth)
	}
	if rapid.IntRange(0, 3).Draw(t, "own key") == 0 {
		o[s.word(t)] = s.val(t, depth)
	}
	return o
}

// vcsConf is the configuration of a repository of the kind, which works.
func (s *secrets) vcsConf(t *rapid.T, vcs string) obj {
	o := s.conf(t, 2)
	switch vcs {
	case "svn":
		o["username"], o["password"] = s.word(t), s.word(t)
	case "hxfake":
		if rapid.Bool().Draw(t, "ref?") {
			o["ref"] = s.word(t)
		}
	case "local":
		if rapid.Bool().Draw(t, "watch?") {
			o["watch-changes"] = true
			o["ignored-files"] = []interface{}{s.word(t), "." + s.word(t)}
		}
	}
	return o
}

// forms are the ways to spell a secret that are looked for.
func forms(v string) map[string]string {
	m := map[string]string{
		v: "itself", strings.ToLower(v): "in lower case", strings.ToUpper(v): "in upper case",
		hex.EncodeToString([]byte(v)): "in hex", strings.ToUpper(hex.EncodeToString([]byte(v))): "in hex",
	}
	for i := 0; i < 3; i++ {
		// what does not depend on the bytes around it
		b := append(make([]byte, i), v...)
		b = b[:len(b)/3*3]
		for _, e := range []*base64.Encoding{base64.StdEncoding, base64.URLEncoding} {
			m[e.EncodeToString(b)[(i*8+5)/6:]] = "in base64"
		}
	}
	var dec, dec2 []string
	for _, c := range []byte(v) {
		dec, dec2 = append(dec, fmt.Sprint(c)), append(dec2, fmt.Sprint(c))
	}
	m[strings.Join(dec, ",")] = "as numbers"
	m[strings.Join(dec2, " ")] = "as numbers"
	r := []rune(v)
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	m[string(r)] = "backwards"
	return m
}

// leak looks for the secrets in an answer.
func (s *secrets) leak(answer []byte) string {
	low := bytes.ToLower(answer)
	for _, v := range s.vals {
		for f, how := range forms(v) {
			if bytes.Contains(answer, []byte(f)) {
				return fmt.Sprintf("%q %s", v, how)
			}
		}
		if bytes.Contains(low, []byte(strings.ToLower(v))) {
			return fmt.Sprintf("%q in another case", v)
		}
	}
	return ""
}

func TestLeaks(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		set, _, remove := hx.Stubs(d)
		defer remove()
		s := &secrets{}
		state := hx.StubState{Remotes: map[string]*hx.StubRemote{}, Fail: map[string]string{}}
		doc := obj{"dbpath": "db"}
		if rapid.Bool().Draw(t, "title?") {
			doc["title"] = "Our <code> & \"more\""
		}
		var hist []string
		globals := obj{}
		gconf := map[string]obj{}
		for _, v := range []string{"svn", "hxfake", "local", "git", "hg", "other"} {
			if rapid.IntRange(0, 2).Draw(t, "global "+v) == 0 {
				gconf[v] = s.vcsConf(t, v)
				if v == "hxfake" {
					delete(gconf[v], "ref") // repositories of one url may be told apart
				}
				globals[v] = gconf[v]
			}
		}
		if len(globals) > 0 {
			doc["vcs-config"] = globals
		}
		repos := obj{}
		var names []string
		broken := 0
		for i := rapid.IntRange(1, 4).Draw(t, "repos"); i > 0; i-- {
			n := rapid.SampledFrom([]string{"r", "a/b", "Repo Two", "é", "<b>", "\"q\""}).Draw(t, "name")
			if repos[n] != nil {
				continue
			}
			names = append(names, n)
			vcs := rapid.SampledFrom([]string{"svn", "svn", "hxfake", "hxfake", "local", "hg"}).Draw(t, "vcs")
			r := obj{"vcs": vcs, "enable-poll-updates": false}
			if rapid.Bool().Draw(t, "push") {
				r["enable-push-updates"] = true
			}
			if rapid.Bool().Draw(t, "pattern") {
				r["url-pattern"] = obj{"base-url": "{url}/x/{path}{anchor}"}
			}
			var conf obj
			if rapid.IntRange(0, 4).Draw(t, "vcs-config") > 0 {
				conf = s.vcsConf(t, vcs)
				r["vcs-config"] = conf
			}
			tree := hx.Tree{"f": "text foo\n", "bin": "\xff\x00\xfe", "d/g": strings.Repeat("foo\n", i)}
			get := func(k string) string {
				if x, ok := conf[k]; ok {
					v, _ := x.(string)
					return v
				}
				v, _ := gconf[vcs][k].(string)
				return v
			}
			bad := rapid.IntRange(0, 4).Draw(t, "broken") == 0
			switch vcs {
			case "svn", "hg":
				u := fmt.Sprintf("https://h.example/%s/%d", vcs, i)
				r["url"] = u
				state.Remotes[u] = &hx.StubRemote{Rev: fmt.Sprint(i), Tree: tree}
				if vcs == "svn" {
					state.Remotes[u].User, state.Remotes[u].Pass = get("username"), get("password")
					if bad {
						state.Remotes[u].User, state.Remotes[u].Pass = "somebody", "else"
					}
				} else if bad {
					delete(state.Remotes, u)
				}
			case "hxfake":
				u := fmt.Sprintf("fake://c23/%d", i)
				r["url"] = u
				full := u
				if ref := get("ref"); ref != "" {
					full += "#" + ref
				}
				if !bad {
					hx.NewRemote(full, fmt.Sprintf("rev-%d", i), tree)
				}
			case "local":
				p := filepath.Join(d, fmt.Sprintf("src%d", i))
				if !bad {
					hx.WriteTree(p, tree)
				}
				r["url"] = "file://" + p
			}
			if bad {
				broken++
			}
			repos[n] = r
			hist = append(hist, fmt.Sprintf("%q: %s, broken %v, vcs-config %v", n, vcs, bad, conf != nil))
		}
		doc["repos"] = repos
		set(state)
		file := filepath.Join(d, "config.json")
		b, err := json.Marshal(doc)
		hx.Must(err)
		hx.Must(os.WriteFile(file, b, 0o600))
		hx.Must(os.MkdirAll(filepath.Join(d, "db"), 0o755))
		var cfg config.Config
		if err := cfg.LoadFromFile(file); err != nil {
			t.Fatalf("the configuration is refused: %v\n%s", err, b)
		}
		dev := rapid.Bool().Draw(t, "dev")
		asked := 0
		var srv *web.Server
		ask := func(r *http.Request, what string) *httptest.ResponseRecorder {
			rec := httptest.NewRecorder()
			hx.Bounded(t, "an answer to "+what, func() {
				// a crash closes the connection, whatever it says is not sent
				defer func() { recover() }()
				srv.ServeHTTP(rec, r)
			})
			asked++
			var all bytes.Buffer
			rec.Result().Header.Write(&all)
			all.Write(rec.Body.Bytes())
			if l := s.leak(all.Bytes()); l != "" {
				t.Fatalf("the answer to %s holds the configured value %s: %.2000q\nconfiguration: %s", what, l, all.Bytes(), b)
			}
			return rec
		}
		get := func(p string) *httptest.ResponseRecorder {
			r := httptest.NewRequest("GET", "/", nil)
			r.URL.Path, r.URL.RawQuery, _ = strings.Cut(p, "?")
			r.RequestURI = p
			return ask(r, "GET "+p)
		}
		srv = web.Start(&cfg, "127.0.0.1:999999", dev) // cannot listen, asked directly
		paths := []string{"/", "/excluded_files.html", "/open_search.xml", "/api/v1/repos", "/api/v1/excludes", "/healthz", "/nope", "/api/v1/nope",
			"/config.json", "/../config.json", "/../../../.." + file, "//" + file, file, "/api", "/debug/vars", "/debug/pprof/cmdline", "/metrics", "/images/", "/js/hound.js"}
		for _, p := range paths {
			get(p)
		}
		var idx map[string]*searcher.Searcher
		var errs map[string]error
		hx.Bounded(t, "the first indexing", func() { idx, errs, err = searcher.MakeAll(&cfg) })
		if err != nil {
			t.Fatalf("indexing: %v", err)
		}
		for n, err := range errs {
			hist = append(hist, fmt.Sprintf("%q fails: %v", n, err))
			delete(idx, n)
		}
		defer func() {
			for _, x := range idx {
				x.Stop()
			}
			for _, x := range idx {
				hx.Bounded(t, "Wait", x.Wait)
			}
		}()
		hx.Bounded(t, "serving", func() { srv.ServeWithIndex(idx) })
		served := 0
		round := func() {
			for _, p := range paths {
				if get(p).Code == 200 {
					served++
				}
			}
			for _, n := range append([]string{"nope", "*"}, names...) {
				e := url.QueryEscape(n)
				get("/api/v1/excludes?repo=" + e)
				for _, q := range []string{"", "foo", "[", "password", "."} {
					get("/api/v1/search?stats=1&repos=" + e + "&rng=:&ctx=20&q=" + url.QueryEscape(q))
				}
				get("/api/v1/search?q=foo&files=(&repos=" + e)
				get("/api/v1/update?repos=" + e)
				ask(httptest.NewRequest("POST", "/api/v1/update?repos="+e, nil), "update "+n)
				hook, _ := json.Marshal(obj{"repository": obj{"full_name": n}})
				ask(httptest.NewRequest("POST", "/api/v1/github-webhook", bytes.NewReader(hook)), "webhook "+n)
			}
			ask(httptest.NewRequest("POST", "/api/v1/github-webhook", strings.NewReader("{")), "webhook {")
			ask(httptest.NewRequest("POST", "/api/v1/github-webhook", strings.NewReader(`{"repository":1}`)), "webhook 1")
			get("/api/v1/search?q=%zz&repos=%zz")
		}
		round()
		for _, r := range state.Remotes {
			if rapid.IntRange(0, 2).Draw(t, "fails now") == 0 {
				r.User, r.Pass = "nobody", "at all"
			}
		}
		set(state)
		for _, x := range idx {
			x.Update()
		}
		round()
		sort.Strings(hist)
		hx.Count(fmt.Sprintf("dev %v, %d values, %s", dev, len(s.vals), strings.Join(hist, "; ")), len(s.vals) > 0 && len(idx) > 0)
		hx.Class("answers searched", int64(asked))
		hx.Class("repositories that cannot be indexed", int64(len(errs)))
		hx.Class("answers with status 200 to plain paths", int64(served))
		if served < 6 {
			t.Fatalf("only %d of the paths are served", served)
		}
	})
}
