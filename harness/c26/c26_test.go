// C26: the server is healthy from the start and not ready until indexed.
package c26

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/ui"
	"github.com/hound-search/hound/web"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var healths = []string{"/healthz", "/healthz", "/health/check", "/", "/api/v1/search", "/é", "/a b", "/healthz/", "/x?y", "/open_search.xml", "/nope"}

var paths = []string{"/", "/healthz", "/healthz/", "/health", "/HEALTHZ", "/health/check", "/open_search.xml", "/excluded_files.html", "/js/hound.js", "/css/hound.css", "/nope",
	"/api/v1/repos", "/api/v1/search?q=foo&repos=*", "/api/v1/search?q=(&repos=*", "/api/v1/excludes?repo=r0", "/api/v1/excludes?repo=x", "/api/v1/update?repos=r0", "/api/v1/github-webhook", "/api/v2", "//", "/a/../api/v1/repos", "/é", "/a b", "/x?y", "/favicon.ico"}

type req struct {
	method, path, query, body string
}

func (q req) String() string { return q.method + " " + q.path + "?" + q.query }

func (q req) make() *http.Request {
	r := httptest.NewRequest(q.method, "/", strings.NewReader(q.body))
	r.URL = &url.URL{Path: q.path, RawQuery: q.query}
	r.RequestURI = r.URL.RequestURI()
	return r
}

func genReq(t *rapid.T, health string) req {
	q := req{method: rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "OPTIONS"}).Draw(t, "method")}
	p := rapid.SampledFrom(append([]string{health, health, health + "x", health + "/", strings.TrimSuffix(health, "/")}, paths...)).Draw(t, "path")
	q.path, q.query, _ = strings.Cut(p, "?")
	if p == health {
		q.path, q.query = p, ""
	}
	if rapid.IntRange(0, 4).Draw(t, "query") == 0 {
		q.query = "x=1"
	}
	if q.path == "" {
		q.path = "/"
	}
	if q.method == "POST" && rapid.Bool().Draw(t, "hook") {
		q.body = `{"repository":{"full_name":"x"}}`
	}
	return q
}

type answer struct {
	code int
	body string
	loc  string
}

// ask gets the handler's answer; a crash is an answer too.
func ask(h http.Handler, q req) (a answer) {
	rec := httptest.NewRecorder()
	func() {
		defer func() {
			if p := recover(); p != nil {
				a.loc = fmt.Sprint("crash: ", p)
			}
		}()
		h.ServeHTTP(rec, q.make())
	}()
	a.code, a.body = rec.Code, rec.Body.String()
	if a.loc == "" {
		a.loc = rec.Header().Get("Location")
	}
	if strings.HasPrefix(q.path, "/api/v1/search") && a.code == 200 {
		// the time taken is not compared
		var v map[string]interface{}
		if json.Unmarshal([]byte(a.body), &v) == nil && v["Stats"] != nil {
			delete(v, "Stats")
			b, _ := json.Marshal(v)
			a.body = string(b)
		}
	}
	return a
}

// TestReady: in one process, with requests before, while and after the server
// becomes ready.
func TestReady(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := hx.NewWorld(d, 2)
		for i := rapid.IntRange(0, 2).Draw(t, "repos"); i >= 0; i-- {
			w.Add(fmt.Sprintf("r%d", i), fmt.Sprintf("fake://c26/%d", i), false, rapid.Bool().Draw(t, "push"), 1000000000000, hx.SmallTree(t, "tree"))
		}
		health := rapid.SampledFrom(healths).Draw(t, "health")
		w.Cfg.HealthCheckURI = health
		w.Cfg.Title = "T"
		w.Cfg.ResultLimit = 5000
		dev := rapid.IntRange(0, 3).Draw(t, "dev") == 0
		srv := web.Start(w.Cfg, "127.0.0.1:999999", dev) // cannot listen, asked directly
		before, after, n := 0, 0, 0
		// judge checks one answer; late: the server was ready when the request was made
		var ref http.Handler
		judge := func(q req, a answer, late bool) (ready bool, err error) {
			if q.path == health {
				if a.code != 200 || a.loc != "" {
					return false, fmt.Errorf("health check %s: status %d, %s", q, a.code, a.loc)
				}
				return false, nil
			}
			if a.code == 503 && a.loc == "" {
				if late {
					return false, fmt.Errorf("%s: status 503 though the server was ready", q)
				}
				return false, nil
			}
			if ref == nil {
				return false, fmt.Errorf("%s: status %d %s before the indexing is over", q, a.code, a.loc)
			}
			if want := ask(ref, q); a != want {
				return false, fmt.Errorf("%s: status %d %s %.300q, want %d %s %.300q", q, a.code, a.loc, a.body, want.code, want.loc, want.body)
			}
			return true, nil
		}
		gen := func(label string, max int) (qs []req) {
			for i := rapid.IntRange(1, max).Draw(t, label); i > 0; i-- {
				qs = append(qs, genReq(t, health))
			}
			return qs
		}
		one := func(q req) answer {
			var a answer
			hx.Bounded(t, "an answer to "+q.String(), func() { a = ask(srv, q) })
			n++
			return a
		}
		for _, q := range gen("before", 8) {
			if _, err := judge(q, one(q), false); err != nil {
				t.Fatalf("at the start: %v (health check at %q)", err, health)
			}
			before++
		}
		for n, err := range w.Start(t) {
			t.Fatalf("%s: %v", n, err)
		}
		defer w.Stop(t)
		idx := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			idx[r.Name] = r.S
		}
		for _, q := range gen("still before", 4) {
			if _, err := judge(q, one(q), false); err != nil {
				t.Fatalf("before it serves: %v (health check at %q)", err, health)
			}
			before++
		}
		h, err := ui.Content(dev, w.Cfg)
		hx.Must(err)
		m := http.NewServeMux()
		m.Handle("/", h)
		api.Setup(m, idx, w.Cfg.ResultLimit)
		type obs struct {
			q    req
			a    answer
			late bool
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		over := make(chan struct{})
		clients := rapid.IntRange(0, 4).Draw(t, "clients")
		if dev {
			clients = 0 // pages of the development mode share a template
		}
		seen := make([][]obs, clients)
		for c := 0; c < clients; c++ {
			qs := gen("requests", 6)
			wg.Add(1)
			go func(c int) {
				defer wg.Done()
				<-start
				ready := false
				left := len(qs) // after it serves
				for i := 0; left > 0; i++ {
					q := qs[i%len(qs)]
					select {
					case <-over:
						ready = true
						left--
					default:
						if ready && len(seen[c]) > 200 {
							time.Sleep(50 * time.Microsecond)
						}
					}
					a := ask(srv, q)
					late := ready
					if q.path != health && a.code != 503 {
						ready = true
					}
					if a.code == 503 && a.loc == "" && q.path != health && !late || a.code == 200 && a.loc == "" && q.path == health {
						continue // as it has to be
					}
					seen[c] = append(seen[c], obs{q, a, late})
				}
			}(c)
		}
		close(start)
		if clients > 0 {
			time.Sleep(time.Duration(rapid.IntRange(0, 300).Draw(t, "pause")) * time.Microsecond)
		}
		hx.Bounded(t, "serving", func() { srv.ServeWithIndex(idx) }) // returns, as it cannot listen
		close(over)
		hx.Bounded(t, "the clients", wg.Wait)
		ref = m
		for _, os := range seen {
			for _, o := range os {
				n++
				ready, err := judge(o.q, o.a, o.late)
				if err != nil {
					t.Fatalf("while it becomes ready: %v (health check at %q)", err, health)
				}
				if ready {
					after++
				} else {
					before++
				}
			}
		}
		for _, q := range gen("after", 8) {
			ready, err := judge(q, one(q), true)
			if err != nil {
				t.Fatalf("when it serves: %v (health check at %q)", err, health)
			}
			if ready {
				after++
			}
		}
		hx.Count(fmt.Sprintf("health check at %q, dev %v, %d clients, %d repositories", health, dev, clients, len(idx)), before > 0 && after > 0)
		hx.Class("requests", int64(n))
		hx.Class("answers equal to the reference", int64(after))
		hx.Class("cases with concurrent clients", int64(min(clients, 1)))
	})
}

var port = 0

// addr is a free address that no other shard takes.
func addr() string {
	for i := 0; i < 1000; i++ {
		port = (port + 1) % 1000
		a := fmt.Sprintf("127.0.0.1:%d", 20000+1000*hx.EnvInt("HX_SHARD", 0)+port)
		l, err := net.Listen("tcp", a)
		if err == nil {
			l.Close()
			return a
		}
	}
	hx.Env("no free port")
	return ""
}

type buf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (b *buf) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.b.Write(p)
}

func (b *buf) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	s := b.b.String()
	return s[max(0, len(s)-3000):]
}

// TestServer: the houndd program, whose repositories are indexed when the
// harness lets them.
func TestServer(t *testing.T) {
	houndd := filepath.Join(os.Getenv("HX_BUILD"), "houndd")
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		set, _, remove := hx.Stubs(d)
		defer remove()
		hold := filepath.Join(d, "hold")
		hx.Must(os.WriteFile(hold, nil, 0o644))
		state := hx.StubState{Remotes: map[string]*hx.StubRemote{}, Fail: map[string]string{}, Hold: hold}
		repos := map[string]interface{}{}
		want := map[string]bool{}
		held := false
		for i := rapid.IntRange(1, 4).Draw(t, "repos"); i > 0; i-- {
			n := fmt.Sprintf("r%d", i)
			vcs := rapid.SampledFrom([]string{"svn", "hg", "local", "bzr"}).Draw(t, "vcs")
			u := "https://h.example/" + n
			ok := rapid.IntRange(0, 3).Draw(t, "works") > 0
			tree := hx.Tree{"f": "foo " + n + "\n", "g/h": "bar\n"}
			if vcs == "local" {
				u = "file://" + d + "/src" + n
				if ok {
					hx.WriteTree(d+"/src"+n, tree)
				}
			} else {
				held = true
				if ok {
					state.Remotes[u] = &hx.StubRemote{Rev: fmt.Sprint(i), Tree: tree}
				}
			}
			repos[n] = map[string]interface{}{"url": u, "vcs": vcs, "enable-poll-updates": rapid.Bool().Draw(t, "poll"), "ms-between-poll": 3600000}
			if ok {
				want[n] = true
			}
		}
		set(state)
		conf := map[string]interface{}{"dbpath": "db", "repos": repos, "title": "Our code"}
		health := "/healthz"
		if rapid.Bool().Draw(t, "health?") {
			health = rapid.SampledFrom([]string{"/health/check", "/healthz2", "/é", "/api/v1/health", "/css/hound.css"}).Draw(t, "health")
			conf["health-check-uri"] = health
		}
		b, err := json.Marshal(conf)
		hx.Must(err)
		file := filepath.Join(d, "conf.json")
		hx.Must(os.WriteFile(file, b, 0o644))
		a := addr()
		cmd := exec.Command(houndd, "-conf", file, "-addr", a)
		var out buf
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.Dir = d
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		hx.Must(cmd.Start())
		ended := make(chan error, 1)
		go func() { ended <- cmd.Wait() }()
		defer func() {
			os.Remove(hold)
			cmd.Process.Kill()
			select {
			case <-ended:
			case <-time.After(hx.Patience()):
			}
		}()
		client := &http.Client{Timeout: hx.Patience(), Transport: &http.Transport{DisableKeepAlives: rapid.Bool().Draw(t, "close")}}
		defer client.CloseIdleConnections()
		get := func(p string) (int, string, error) {
			u := &url.URL{Scheme: "http", Host: a}
			u.Path, u.RawQuery, _ = strings.Cut(p, "?")
			r, err := client.Get(u.String())
			if err != nil {
				return 0, "", err
			}
			defer r.Body.Close()
			b, err := io.ReadAll(r.Body)
			return r.StatusCode, string(b), err
		}
		alive := func() {
			select {
			case err := <-ended:
				ended <- err
				t.Fatalf("houndd ended: %v\nconfiguration: %s\noutput: %s", err, b, &out)
			default:
			}
		}
		must := func(p string) (int, string) {
			code, body, err := get(p)
			if err != nil {
				alive()
				t.Fatalf("%s: %v\nconfiguration: %s\noutput: %s", p, err, b, &out)
			}
			return code, body
		}
		// the first answer of all is that of the health check
		hx.Eventually(t, "the health check's first answer", func() bool {
			alive()
			code, _, err := get(health)
			if err == nil && code != 200 {
				t.Fatalf("the health check %s answers %d at first\nconfiguration: %s", health, code, b)
			}
			return err == nil
		})
		some := []string{"/", "/api/v1/repos", "/api/v1/search?q=foo&repos=*", "/open_search.xml", "/nope", "/healthz", "/css/hound.css", health + "x"}
		unready := 0
		for i := rapid.IntRange(0, 6).Draw(t, "requests"); i > 0 && held; i-- {
			p := rapid.SampledFrom(append(some, health)).Draw(t, "path")
			if rapid.IntRange(0, 2).Draw(t, "wait for the indexing to begin") == 0 {
				hx.Eventually(t, "the indexing to begin", func() bool { alive(); _, err := os.Stat(hold + ".here"); return err == nil })
			}
			code, body := must(p)
			if p == health && code != 200 || p != health && code != 503 {
				t.Fatalf("%s answers %d %.200q while a repository is being fetched\nconfiguration: %s", p, code, body, b)
			}
			unready++
		}
		hx.Must(os.Remove(hold))
		hx.Eventually(t, "the pages to be served", func() bool {
			alive()
			if code, _ := must(health); code != 200 {
				t.Fatalf("the health check %s answers %d\nconfiguration: %s", health, code, b)
			}
			code, body := must("/")
			if code == 503 {
				return false
			}
			if code != 200 || !strings.Contains(body, "<title>Our code</title>") {
				t.Fatalf("/ answers %d %.300q\nconfiguration: %s", code, body, b)
			}
			return true
		})
		for _, p := range some {
			code, body := must(p)
			if p == health {
				continue
			}
			wantCode := 200
			if p == "/nope" || p == "/healthz" || p == health+"x" {
				wantCode = 404
			}
			if code != wantCode {
				t.Fatalf("%s answers %d %.200q when all is indexed, want %d\nconfiguration: %s\noutput: %s", p, code, body, wantCode, b, &out)
			}
			switch {
			case p == "/api/v1/repos":
				var v map[string]interface{}
				err := json.Unmarshal([]byte(body), &v)
				got := map[string]bool{}
				for n := range v {
					got[n] = true
				}
				if err != nil || !hx.Same(got, want) {
					s := hx.SetDiff(got, want)
					t.Fatalf("the repositories listed: %v %s\nconfiguration: %s\noutput: %s", err, s, b, &out)
				}
			case strings.HasPrefix(p, "/api/v1/search"):
				var v struct {
					Results map[string]struct {
						Matches []struct{ Filename string }
					}
				}
				err := json.Unmarshal([]byte(body), &v)
				got := map[string]bool{}
				for n, r := range v.Results {
					if len(r.Matches) == 1 && r.Matches[0].Filename == "f" {
						got[n] = true
					}
				}
				if err != nil || !hx.Same(got, want) {
					s := hx.SetDiff(got, want)
					t.Fatalf("the repositories searched: %v %s: %.500q\nconfiguration: %s\noutput: %s", err, s, body, b, &out)
				}
			}
		}
		if code, _ := must(health); code != 200 {
			t.Fatalf("the health check %s answers %d in the end\nconfiguration: %s", health, code, b)
		}
		alive()
		term := rapid.Bool().Draw(t, "SIGTERM")
		if term {
			cmd.Process.Signal(syscall.SIGTERM)
			select {
			case err := <-ended:
				ended <- err
				if err != nil {
					t.Fatalf("houndd ends with %v after SIGTERM\noutput: %s", err, &out)
				}
			case <-time.After(hx.Patience()):
				hx.Hung()
				t.Fatalf("houndd does not end after SIGTERM\noutput: %s", &out)
			}
		}
		var ns []string
		for n := range repos {
			ns = append(ns, fmt.Sprintf("%s %v", n, want[n]))
		}
		sort.Strings(ns)
		hx.Count(fmt.Sprintf("houndd, health check at %q, %s", health, strings.Join(ns, ", ")), unready > 0)
		hx.Class("requests before houndd was ready", int64(unready))
		hx.Class("repositories that cannot be indexed", int64(len(repos)-len(want)))
	})
}

// light keeps the status of an answer and the length of its body.
type light struct {
	h    http.Header
	code int
	n    int
}

func (l *light) Header() http.Header { return l.h }
func (l *light) WriteHeader(c int) {
	if l.code == 0 {
		l.code = c
	}
}
func (l *light) Write(b []byte) (int, error) {
	l.WriteHeader(200)
	l.n += len(b)
	return len(b), nil
}

// TestSwitch: many servers that become ready while clients ask as fast as they can.
func TestSwitch(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		cfg := hx.NewWorld(os.TempDir(), 1).Cfg
		cfg.HealthCheckURI = "/healthz"
		path := rapid.SampledFrom([]string{"/api/v1/repos", "/api/v1/repos", "/api/v1/search", "/api/v1/excludes", "/api/v1/update", "/api/v1/github-webhook", "/open_search.xml", "/nope"}).Draw(t, "path")
		clients := rapid.IntRange(1, 3).Draw(t, "clients")
		idx := map[string]*searcher.Searcher{}
		srv := web.Start(cfg, "127.0.0.1:999999", false)
		var wg, ready sync.WaitGroup
		over := make(chan struct{})
		type first struct{ unready, code, n, late int }
		seen := make([]first, clients)
		for c := 0; c < clients; c++ {
			wg.Add(1)
			ready.Add(1)
			go func(f *first) {
				defer wg.Done()
				r := req{"GET", path, "", ""}.make()
				for i := 0; ; i++ {
					l := light{h: http.Header{}}
					srv.ServeHTTP(&l, r)
					if i == 0 {
						ready.Done()
					}
					if l.code != 503 {
						f.code, f.n = l.code, l.n
						for k := 0; k < 5; k++ {
							l := light{h: http.Header{}}
							srv.ServeHTTP(&l, r)
							if l.code != f.code || l.n != f.n {
								f.late = l.code
							}
						}
						return
					}
					f.unready++
					select {
					case <-over:
						return
					default:
					}
				}
			}(&seen[c])
		}
		ready.Wait()
		hx.Bounded(t, "serving", func() { srv.ServeWithIndex(idx) })
		l := light{h: http.Header{}}
		srv.ServeHTTP(&l, req{"GET", path, "", ""}.make())
		close(over)
		wg.Wait()
		h, err := ui.Content(false, cfg)
		hx.Must(err)
		m := http.NewServeMux()
		m.Handle("/", h)
		api.Setup(m, idx, 0)
		ref := light{h: http.Header{}}
		m.ServeHTTP(&ref, req{"GET", path, "", ""}.make())
		for _, f := range seen {
			if f.code != 0 && (f.code != ref.code || f.n != ref.n || f.late != 0) {
				t.Fatalf("%s, after %d times 503: status %d (%d bytes), soon after %d; want %d (%d bytes)", path, f.unready, f.code, f.n, f.late, ref.code, ref.n)
			}
		}
		if l.code != ref.code || l.n != ref.n {
			t.Fatalf("%s when it serves: status %d (%d bytes), want %d (%d bytes)", path, l.code, l.n, ref.code, ref.n)
		}
		n := 0
		for _, f := range seen {
			n += f.unready
		}
		hx.Count(fmt.Sprintf("%s, %d clients", path, clients), n > 0)
		hx.Class("requests before it is ready", int64(n))
	})
}
