package c28

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

// serve starts a server at an address of its own, as requests of an earlier
// case (or another process) may still be under way to a port used again.
func serve(h http.Handler) *httptest.Server {
	served++
	pid := os.Getpid()
	l, err := net.Listen("tcp4", fmt.Sprintf("127.%d.%d.%d:0", 1+pid>>8&0x7f, pid&0xff, 1+served%250))
	if err != nil {
		hx.Env("listen: %v", err)
	}
	srv := httptest.NewUnstartedServer(h)
	srv.Listener.Close()
	srv.Listener = l
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Start()
	return srv
}

var served int

type obj = map[string]interface{}

// asked is a request as the server got it.
type asked struct {
	path, host string
	form       map[string]string
	header     http.Header
}

var args = []string{"foo", "a b", "a+b", "a&b=c", "100%", "%20", "é日本", "\U0001F600", "\"q\"", "(?i)x|y", "^$", "#x", "a;b", "\n", "\t", "\x00", "\x7f", "\xff", "..", "/", "\\", "?", "*", "r0,r1", "", " ", "=", "&", "q=x&i=true", "\u2028"}

func arg(t *rapid.T, label string) string {
	if rapid.IntRange(0, 4).Draw(t, label+" any") == 0 {
		return rapid.String().Draw(t, label)
	}
	return rapid.SampledFrom(args).Draw(t, label) + rapid.SampledFrom([]string{"", "", "x", " ", "&"}).Draw(t, "more")
}

// respond makes the JSON of a response and the same as a value.
func genResponse(t *rapid.T) (*client.Response, []byte) {
	res := &client.Response{Results: map[string]*index.SearchResponse{}}
	doc := obj{}
	rd := obj{}
	for i := rapid.IntRange(0, 3).Draw(t, "repos"); i > 0; i-- {
		n := rapid.SampledFrom([]string{"r", "a/b", "é", "x y", "<&>", "\u2028", "Error", ""}).Draw(t, "repo")
		r := &index.SearchResponse{FilesWithMatch: rapid.IntRange(0, 1<<40).Draw(t, "n"), Revision: rapid.SampledFrom([]string{"abc", "", "é\""}).Draw(t, "rev")}
		var ms []obj
		for j := rapid.IntRange(0, 2).Draw(t, "files"); j > 0; j-- {
			f := genFile(t, fmt.Sprintf("F%d<\"é", j), rapid.IntRange(0, 3).Draw(t, "ctx"), true)
			var fs []obj
			for _, m := range f.Matches {
				m.Line = strings.ToValidUTF8(m.Line, "?")
				for _, l := range [][]string{m.Before, m.After} {
					for k := range l {
						l[k] = strings.ToValidUTF8(l[k], "?")
					}
				}
				fs = append(fs, obj{"Line": m.Line, "LineNumber": m.LineNumber, "Before": m.Before, "After": m.After})
			}
			r.Matches = append(r.Matches, f)
			f.AutoGenerated = rapid.Bool().Draw(t, "generated")
			ms = append(ms, obj{"Filename": f.Filename, "Matches": fs, "AutoGenerated": f.AutoGenerated})
		}
		res.Results[n] = r
		rd[n] = obj{"Matches": ms, "FilesWithMatch": r.FilesWithMatch, "Revision": r.Revision}
	}
	doc["Results"] = rd
	if rapid.Bool().Draw(t, "stats") {
		a, b := rapid.IntRange(0, 1<<40).Draw(t, "opened"), rapid.IntRange(0, 1<<30).Draw(t, "ms")
		doc["Stats"] = obj{"FilesOpened": a, "Duration": b}
		hx.Must(json.Unmarshal([]byte(fmt.Sprintf(`{"Stats":{"FilesOpened":%d,"Duration":%d}}`, a, b)), res))
	}
	if rapid.IntRange(0, 3).Draw(t, "unknown key") == 0 {
		doc["Extra"] = obj{"x": 1}
	}
	b, err := json.Marshal(doc)
	hx.Must(err)
	return res, b
}

func genRepoList(t *rapid.T) (map[string]*config.Repo, []byte) {
	repos := map[string]*config.Repo{}
	doc := obj{}
	for i := rapid.IntRange(0, 3).Draw(t, "infos"); i > 0; i-- {
		n := rapid.SampledFrom([]string{"r", "a/b", "é", "x y", "Error"}).Draw(t, "info")
		r := &config.Repo{Url: rapid.SampledFrom([]string{"https://h/Org/x.git", "/x", "", "é<"}).Draw(t, "url"), Vcs: "git", DisplayName: rapid.SampledFrom([]string{"", "D n"}).Draw(t, "display"),
			UrlPattern: &config.UrlPattern{BaseUrl: "{url}&", Anchor: "#"}, MsBetweenPolls: 7}
		repos[n] = r
		doc[n] = obj{"url": r.Url, "vcs": "git", "display-name": r.DisplayName, "url-pattern": obj{"base-url": "{url}&", "anchor": "#"}, "ms-between-poll": 7, "vcs-config": obj{}, "auto-generated-files": nil}
	}
	b, err := json.Marshal(doc)
	hx.Must(err)
	return repos, b
}

// fault is an answer that must be an error.
type fault struct {
	name string
	do   func(w http.ResponseWriter)
}

func genFault(t *rapid.T, good []byte, search bool) fault {
	hijack := func(text string) func(w http.ResponseWriter) {
		return func(w http.ResponseWriter) {
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				io.WriteString(c, text)
				c.Close()
			}
		}
	}
	body := func(code int, b string) func(w http.ResponseWriter) {
		return func(w http.ResponseWriter) {
			w.Header().Set("Content-Type", "application/json;charset=utf-8")
			w.WriteHeader(code)
			io.WriteString(w, b)
		}
	}
	k := rapid.IntRange(0, 5).Draw(t, "fault")
	if k == 5 && !search {
		k = 0
	}
	switch k {
	case 0, 1:
		code := rapid.SampledFrom([]int{400, 401, 403, 404, 405, 429, 500, 502, 503}).Draw(t, "code")
		b := rapid.SampledFrom([]string{"Hound is not ready.\n", "", "{}", string(good), "null", `{"Error":"x"}`}).Draw(t, "body")
		return fault{fmt.Sprintf("status %d with %.60q", code, b), body(code, b)}
	case 2:
		n := rapid.IntRange(0, len(good)-1).Draw(t, "cut")
		return fault{fmt.Sprintf("the first %d bytes of %q", n, good), body(200, string(good[:n]))}
	case 3:
		b := rapid.SampledFrom([]string{"", " ", "<html></html>", "[]", "1", "\"x\"", "true", "{", "nul", "{\"Results\":", `{"r":1}`, `{"r":[]}`, `{"r":{"url":1}}`}).Draw(t, "junk")
		if search && strings.HasPrefix(b, `{"r"`) {
			b = rapid.SampledFrom([]string{`{"Results":1}`, `{"Results":[]}`, `{"Results":{"r":1}}`, `{"Results":{"r":{"Matches":1}}}`, `{"Results":{"r":{"Matches":[1]}}}`, `{"Results":{"r":null}}`, `{"Results":{"r":{"Matches":[null]}}}`,
				`{"Results":{"r":{"Matches":[{"Filename":"x","Matches":[null]}]}}}`, `{"Results":{"r":{"Matches":[{"Filename":"x","Matches":[{"Line":"x","LineNumber":"1"}]}]}}}`, `{"Results":{"r":{"Matches":[{"Matches":[{"Before":"x"}]}]}}}`}).Draw(t, "junk2")
		}
		return fault{fmt.Sprintf("%q", b), body(200, b)}
	case 4:
		s := rapid.SampledFrom([]string{"", "HTTP/1.1 200", "junk\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n{", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\n{\"Res", "HTTP/1.1 999999 x\r\n\r\n"}).Draw(t, "raw")
		return fault{fmt.Sprintf("the raw %q", s), hijack(s)}
	}
	b, err := json.Marshal(obj{"Error": rapid.SampledFrom([]string{"error parsing regexp: missing closing )", "x", "é"}).Draw(t, "error")})
	hx.Must(err)
	return fault{fmt.Sprintf("%s", b), body(200, string(b))}
}

func TestClient(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		res, body := genResponse(t)
		repos, list := genRepoList(t)
		var bad [2]*fault // for the search and the list
		for i := range bad {
			if rapid.IntRange(0, 3).Draw(t, "bad") == 0 {
				f := genFault(t, [][]byte{body, list}[i], i == 0)
				bad[i] = &f
			}
		}
		var mu sync.Mutex
		var got []asked
		srv := serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			a := asked{path: r.URL.Path, host: r.Host, form: map[string]string{}, header: r.Header.Clone()}
			for _, k := range []string{"q", "repos", "files", "ctx", "i", "stats", "excludeFiles", "literal", "limit", "rng"} {
				a.form[k] = r.FormValue(k)
			}
			mu.Lock()
			got = append(got, a)
			mu.Unlock()
			i := 0
			switch {
			case strings.HasSuffix(r.URL.Path, "/api/v1/search"):
			case strings.HasSuffix(r.URL.Path, "/api/v1/repos"):
				i = 1
			default:
				http.NotFound(w, r)
				return
			}
			if bad[i] != nil {
				bad[i].do(w)
				return
			}
			w.Header().Set("Content-Type", "application/json;charset=utf-8")
			w.Write([][]byte{body, list}[i])
		}))
		defer srv.Close()
		host := srv.Listener.Addr().String()
		prefix := ""
		if rapid.IntRange(0, 3).Draw(t, "below") == 0 {
			prefix = rapid.SampledFrom([]string{"/hound", "/a/b"}).Draw(t, "prefix")
		}
		cfg := &client.Config{Host: host + prefix}
		wantHost := host
		headers := map[string]string{}
		for i := rapid.IntRange(0, 3).Draw(t, "headers"); i > 0; i-- {
			k := rapid.SampledFrom([]string{"Authorization", "X-Token", "x-lower-case", "Cookie", "User-Agent", "user-agent", "Accept", "Host", "host", "HOST", "Referer"}).Draw(t, "header")
			v := rapid.SampledFrom([]string{"x", "Bearer a.b-c==", "a b; c=\"d\"", "é", "hound.example", "1,2"}).Draw(t, "value")
			if strings.ToLower(k) == "host" {
				v = rapid.SampledFrom([]string{"hound.example", "hound.example:80", "x"}).Draw(t, "host")
				if wantHost != host {
					continue
				}
				wantHost = v
			} else {
				k2 := http.CanonicalHeaderKey(k)
				if headers[k2] != "" && cfg.HttpHeaders[k] == "" {
					continue // the same header twice
				}
				headers[k2] = v
			}
			if cfg.HttpHeaders == nil {
				cfg.HttpHeaders = map[string]string{}
			}
			cfg.HttpHeaders[k] = v
		}
		pattern, rlist, files := arg(t, "pattern"), arg(t, "repos"), arg(t, "files")
		ctx := rapid.IntRange(0, 25).Draw(t, "ctx")
		icase, stats := rapid.Bool().Draw(t, "i"), rapid.Bool().Draw(t, "stats")
		what := fmt.Sprintf("Search(host %q, headers %q, %q, %q, %q, %d, %v, %v)", cfg.Host, cfg.HttpHeaders, pattern, rlist, files, ctx, icase, stats)
		unreachable := rapid.IntRange(0, 9).Draw(t, "unreachable") == 0
		if unreachable {
			srv.Close()
		}
		faulty := unreachable
		for i, b := range bad {
			if b != nil {
				what += fmt.Sprintf("; the %s is answered with %s", []string{"search", "list"}[i], b.name)
			}
		}
		var gres *client.Response
		var grepos map[string]*config.Repo
		var err error
		kind := rapid.IntRange(0, 3).Draw(t, "kind")
		hx.Bounded(t, what, func() {
			switch kind {
			case 0:
				gres = &client.Response{}
				err = client.Search(gres, cfg, pattern, rlist, files, ctx, icase, stats)
				faulty = faulty || bad[0] != nil
			case 1:
				grepos = map[string]*config.Repo{}
				err = client.LoadRepos(grepos, cfg)
				faulty = faulty || bad[1] != nil
			default:
				gres, grepos, err = client.SearchAndLoadRepos(cfg, pattern, rlist, files, ctx, icase, stats)
				faulty = faulty || bad[0] != nil || bad[1] != nil
			}
		})
		if faulty != (err != nil) {
			t.Fatalf("%s: error %v (unreachable %v)", what, err, unreachable)
		}
		mu.Lock()
		defer mu.Unlock()
		searches, lists := 0, 0
		for _, a := range got {
			if a.host != wantHost {
				t.Fatalf("%s: the request is for host %q, want %q", what, a.host, wantHost)
			}
			for k, v := range headers {
				if g := a.header.Values(k); len(g) != 1 || g[0] != v {
					t.Fatalf("%s: header %s is %q, want %q", what, k, g, v)
				}
			}
			switch a.path {
			case prefix + "/api/v1/search":
				searches++
				on := func(s string) bool { s = strings.ToLower(s); return s == "true" || s == "1" || s == "fosho" }
				if a.form["q"] != pattern || a.form["repos"] != rlist || a.form["files"] != files || a.form["ctx"] != fmt.Sprint(ctx) || on(a.form["i"]) != icase || on(a.form["stats"]) != stats ||
					a.form["excludeFiles"] != "" || on(a.form["literal"]) || a.form["limit"] != "" || a.form["rng"] != "" {
					t.Fatalf("%s: the server gets %q", what, a.form)
				}
			case prefix + "/api/v1/repos":
				lists++
			default:
				t.Fatalf("%s: a request for %q", what, a.path)
			}
		}
		if !faulty && ((kind != 1) != (searches > 0) || (kind != 0) != (lists > 0) || searches+lists > 2) {
			t.Fatalf("%s: %d searches and %d lists asked for", what, searches, lists)
		}
		if err == nil {
			if kind != 1 {
				w, _ := json.Marshal(res)
				g, _ := json.Marshal(gres)
				if !bytes.Equal(w, g) {
					t.Fatalf("%s: the response is %s, want %s", what, g, w)
				}
			}
			if kind != 0 {
				for n, r := range repos {
					if grepos[n] == nil || grepos[n].Url != r.Url || grepos[n].Vcs != "git" || grepos[n].DisplayName != r.DisplayName || !hx.Same(grepos[n].UrlPattern, r.UrlPattern) || grepos[n].MsBetweenPolls != 7 {
						t.Fatalf("%s: repository %q is %+v, want %+v", what, n, grepos[n], r)
					}
				}
				if len(grepos) != len(repos) {
					t.Fatalf("%s: %d repositories, want %d", what, len(grepos), len(repos))
				}
			}
			if kind > 1 {
				present(t, d, regexp.MustCompile("o"), ctx, grepos, gres, false)
			}
		}
		hx.Count(what, faulty || len(headers) > 0)
		hx.Class("answers that are errors", int64(b2i(faulty)))
		hx.Class("requests compared", int64(searches+lists))
	})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// TestOdd: responses that are valid but of no hound server are printed or
// refused, without a crash.
func TestOdd(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		var ms []obj
		for i := rapid.IntRange(0, 5).Draw(t, "matches"); i > 0; i-- {
			m := obj{}
			if rapid.IntRange(0, 7).Draw(t, "line?") > 0 {
				m["LineNumber"] = rapid.IntRange(-3, 8).Draw(t, "line")
			}
			for _, k := range []string{"Before", "After"} {
				switch rapid.IntRange(0, 3).Draw(t, k) {
				case 0:
				case 1:
					m[k] = nil
				default:
					m[k] = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "", "foo"}), 0, 5).Draw(t, "ctx")
				}
			}
			m["Line"] = "foo"
			ms = append(ms, m)
		}
		doc := obj{"Results": obj{"r": obj{"Matches": []obj{{"Filename": "F", "Matches": ms}}}}}
		b, err := json.Marshal(doc)
		hx.Must(err)
		srv := serve(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if strings.HasSuffix(r.URL.Path, "search") {
				w.Write(b)
			} else {
				io.WriteString(w, rapid.SampledFrom([]string{"{}", "null", `{"r":null}`, `{"r":{}}`, `{"r":{"url":"/"}}`}).Draw(t, "list"))
			}
		}))
		defer srv.Close()
		res, repos, err := client.SearchAndLoadRepos(&client.Config{Host: srv.Listener.Addr().String()}, "foo", "*", "", 2, false, false)
		if err == nil {
			present(t, d, regexp.MustCompile("o"), 2, repos, res, false)
		}
		hx.Count(string(b), len(ms) > 1)
	})
}

// TestCli: the hound program against a server with real indexes.
func TestCli(t *testing.T) {
	hound := filepath.Join(os.Getenv("HX_BUILD"), "hound")
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, 2)
		for i := rapid.IntRange(1, 3).Draw(t, "repos"); i > 0; i-- {
			tr := hx.Tree{}
			for j := rapid.IntRange(1, 3).Draw(t, "files"); j > 0; j-- {
				var b strings.Builder
				for k := rapid.IntRange(1, 25).Draw(t, "lines"); k > 0; k-- {
					b.WriteString(rapid.SampledFrom([]string{"foo", "", "  foo bar", "bar", "xfoox Foo", "7:x", "--", "é foo", "a"}).Draw(t, "line") + "\n")
				}
				tr[fmt.Sprintf("F%d-%d.%s", i, j, rapid.SampledFrom([]string{"go", "txt"}).Draw(t, "ext"))] = b.String()
			}
			w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c29/org/n%d", i), false, false, 1000, tr)
			w.Repos[len(w.Repos)-1].R.Set("rev", tr)
			if rapid.Bool().Draw(t, "display") {
				w.Repos[len(w.Repos)-1].Conf.DisplayName = fmt.Sprintf("Display %d", i)
			}
		}
		for n, err := range w.Start(t) {
			t.Fatalf("%s: %v", n, err)
		}
		defer w.Stop(t)
		idx := map[string]*searcher.Searcher{}
		repos := map[string]*config.Repo{}
		for _, r := range w.Repos {
			idx[r.Name] = r.S
			repos[r.Name] = r.Conf
		}
		mux := http.NewServeMux()
		api.Setup(mux, idx, 5000)
		var mu sync.Mutex
		var tokens []string
		srv := serve(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			mu.Lock()
			tokens = append(tokens, r.Header.Get("X-Token"))
			mu.Unlock()
			mux.ServeHTTP(rw, r)
		}))
		defer srv.Close()
		host := srv.Listener.Addr().String()
		home := filepath.Join(d, "home")
		hx.Must(os.Mkdir(home, 0o755))
		var argv []string
		token := ""
		spoilt := false
		if rapid.Bool().Draw(t, "config file") {
			c := obj{}
			if rapid.Bool().Draw(t, "headers") {
				token = "tok é"
				c["http-headers"] = obj{"x-token": token}
			}
			switch rapid.IntRange(0, 2).Draw(t, "host") {
			case 0:
				c["host"] = host
			case 1:
				c["host"] = "127.0.0.1:1" // the flag wins
				argv = append(argv, "-host", host)
			case 2:
				argv = append(argv, "--host="+host)
			}
			b, err := json.Marshal(c)
			hx.Must(err)
			if spoilt = rapid.IntRange(0, 7).Draw(t, "spoilt") == 0; spoilt {
				// without it, neither the host nor the headers are what was configured
				b = b[:rapid.IntRange(1, len(b)-1).Draw(t, "cut")]
			}
			hx.Must(os.WriteFile(filepath.Join(home, ".hound"), b, 0o644))
		} else {
			argv = append(argv, "-host", host)
		}
		opt := &index.SearchOptions{LinesOfContext: 2}
		if rapid.Bool().Draw(t, "context") {
			opt.LinesOfContext = uint(rapid.IntRange(0, 4).Draw(t, "n"))
			argv = append(argv, fmt.Sprintf("-context=%d", opt.LinesOfContext))
		}
		if rapid.Bool().Draw(t, "i") {
			opt.IgnoreCase = true
			argv = append(argv, "-ignore-case")
		}
		if rapid.IntRange(0, 2).Draw(t, "files?") == 0 {
			opt.FileRegexp = rapid.SampledFrom([]string{"go$", "-1", "\\.txt", "nope"}).Draw(t, "files")
			argv = append(argv, "-files", opt.FileRegexp)
		}
		var chosen []string
		for _, r := range w.Repos {
			chosen = append(chosen, r.Name)
		}
		if rapid.IntRange(0, 2).Draw(t, "repos?") == 0 {
			chosen = rapid.SliceOfNDistinct(rapid.SampledFrom(chosen), 1, -1, rapid.ID[string]).Draw(t, "chosen")
			argv = append(argv, "-repos", strings.Join(chosen, ","))
		}
		if rapid.IntRange(0, 3).Draw(t, "show-stats") == 0 {
			argv = append(argv, "-show-stats")
		}
		pat := rapid.SampledFrom([]string{"foo", "fo+", "FOO", "^foo$", "^", "bar|x", "é", "nope", "[0-9]", "a b&c", "--", "f.o", "", "("}).Draw(t, "pattern")
		argv = append(argv, "--", pat)
		want := &client.Response{Results: map[string]*index.SearchResponse{}}
		var wantErr error
		for _, n := range chosen {
			o := *opt
			o.MaxResults = 5000
			r, err := idx[n].Search(pat, &o)
			if err != nil {
				wantErr = err
				break
			}
			if r.Matches != nil {
				want.Results[n] = r
			}
		}
		unreachable := rapid.IntRange(0, 11).Draw(t, "unreachable") == 0
		if unreachable {
			srv.Close()
		}
		what := fmt.Sprintf("hound %q", argv)
		tty := rapid.IntRange(0, 2).Draw(t, "terminal") == 0
		cmd := exec.Command(hound, argv...)
		cmd.Env = []string{"HOME=" + home, "USER=nobody", "PATH=/usr/bin:/bin"}
		cmd.Dir = home
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Credential: &syscall.Credential{Uid: 54321, Gid: 54321, NoSetGroups: true}}
		var stdout, stderr bytes.Buffer
		cmd.Stderr = &stderr
		var outs chan string
		var slave, master *os.File
		if tty {
			var err error
			if master, slave, err = pty(); err != nil {
				hx.Env("no terminal: %v", err)
			}
			defer master.Close()
			defer slave.Close()
			cmd.Stdout = slave
			outs = readAll(master)
		} else {
			cmd.Stdout = &stdout
		}
		hx.Must(cmd.Start())
		var err error
		done := make(chan struct{})
		go func() { err = cmd.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(hx.Patience()):
			cmd.Process.Kill()
			hx.Hung()
			t.Fatalf("%s does not end", what)
		}
		out := stdout.String()
		if tty {
			io.WriteString(slave, endMark)
			out = <-outs
		}
		if (err != nil) != (wantErr != nil || unreachable || spoilt) {
			t.Fatalf("%s: %v, unreachable %v, config file cut off %v, search error %v\n%.1000q\n%.1000s", what, err, unreachable, spoilt, wantErr, out, &stderr)
		}
		if err != nil {
			if out != "" || stderr.Len() == 0 {
				t.Fatalf("%s: %v, but prints %.1000q and %.1000q", what, err, out, &stderr)
			}
			hx.Count(what+" fails", true)
			return
		}
		flag := ""
		if opt.IgnoreCase {
			flag = "(?i)"
		}
		if err := judge(out, regexp.MustCompile("(?m)"+flag+"("+pat+")"), repos, want, tty); err != nil {
			t.Fatalf("%s: %v\nwant: %s\noutput: %q", what, err, describe(want), out)
		}
		mu.Lock()
		for _, x := range tokens {
			if x != token {
				t.Fatalf("%s: header X-Token is %q, want %q", what, x, token)
			}
		}
		mu.Unlock()
		hx.Count(what, len(want.Results) > 0)
	})
}
