// C27: pages embed the repository list and title without loss or injection.
package c27

import (
	"bufio"
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/web"
	"pgregory.net/rapid"
	"verifharness/hx"
	"verifharness/third/html"
)

func TestMain(m *testing.M) { hx.Main(m) }

type obj = map[string]interface{}

var parts = []string{"</script>", "<script>", "<!--", "-->", "]]>", "</title>", "</SCRIPT ", "\"", "'", "`", "\\", "\\\"", "\\u0022", "${x}", "{{.}}", "&lt;", "&amp;", "&#34;", "&", "<", ">", "<img src=x onerror=pwn()>",
	"\"+pwn()+\"", "';pwn();//", "\u2028", "\u2029", "\n", "\r\n", "\t", "\x00", "\x7f", "\u00a0", "\ufeff", "é", "日本", "\U0001F600", "\ufffd", "+", "%", "%22", "%2", "#", "?", "/", ":", "javascript:", "//", "*/", "/*", "a", "x y", "Repo", "0", "__proto__", "constructor", "toString", "{url}", "{path}", "=", "onload=", " ", "@", "[", "]", "{", "}", ";", "\u202e", "\u0085"}

func nasty(t *rapid.T, label string) string {
	var b strings.Builder
	for i := rapid.IntRange(1, 4).Draw(t, label); i > 0; i-- {
		b.WriteString(rapid.SampledFrom(parts).Draw(t, "part"))
	}
	return b.String()
}

// text is nasty or, sometimes, any text.
func text(t *rapid.T, label string) string {
	if rapid.IntRange(0, 5).Draw(t, label+" any") == 0 {
		return rapid.StringN(1, 20, -1).Draw(t, label)
	}
	return nasty(t, label)
}

func hostText(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "host kind") {
	case 0:
		return rapid.SampledFrom([]string{"localhost:6080", "code.example.com", "[::1]:6080", "127.0.0.1", "xn--bcher-kva.example"}).Draw(t, "host")
	case 1:
		return rapid.StringMatching(`[a-z0-9.]{1,8}[!$%&'()*+,./:;=@_~<>"-]{1,4}[a-z"'<>&]{0,8}`).Draw(t, "host")
	}
	return nasty(t, "host")
}

// gen makes a configuration file's contents and the public part of it.
func gen(t *rapid.T) (doc obj, title string, public map[string]obj) {
	doc, title, public = obj{"dbpath": "db"}, "Hound", map[string]obj{}
	if rapid.IntRange(0, 3).Draw(t, "title?") > 0 {
		title = text(t, "title")
		doc["title"] = title
	}
	repos := obj{}
	for i := rapid.IntRange(0, 4).Draw(t, "repos"); i > 0; i-- {
		n := text(t, "name")
		if repos[n] != nil {
			continue
		}
		r := obj{}
		want := obj{"vcs": "git", "ms-between-poll": 30000.0}
		pat := obj{"base-url": "{url}/blob/{rev}/{path}{anchor}", "anchor": "#L{line}"}
		set := func(o, w obj, key string, v interface{}) {
			if rapid.Bool().Draw(t, key) {
				o[key] = v
				w[key] = v
			}
		}
		set(r, want, "url", text(t, "url"))
		set(r, want, "display-name", text(t, "display name"))
		set(r, want, "vcs", text(t, "vcs"))
		set(r, want, "ms-between-poll", float64(rapid.IntRange(1, 1<<30).Draw(t, "ms")))
		set(r, want, "exclude-dot-files", rapid.Bool().Draw(t, "dots"))
		set(r, want, "enable-poll-updates", rapid.Bool().Draw(t, "poll"))
		set(r, want, "enable-push-updates", rapid.Bool().Draw(t, "push"))
		if rapid.Bool().Draw(t, "auto") {
			l := []interface{}{}
			for j := rapid.IntRange(1, 3).Draw(t, "patterns"); j > 0; j-- {
				l = append(l, text(t, "pattern"))
			}
			set(r, want, "auto-generated-files", l)
		}
		if rapid.Bool().Draw(t, "pattern?") {
			p := obj{}
			set(p, pat, "base-url", text(t, "base url"))
			set(p, pat, "anchor", text(t, "anchor"))
			r["url-pattern"] = p
		}
		if rapid.IntRange(0, 3).Draw(t, "vcs-config") == 0 {
			r["vcs-config"] = obj{"ref": "x"}
		}
		want["url-pattern"] = pat
		public[n] = want
		repos[n] = r
	}
	doc["repos"] = repos
	return doc, title, public
}

func load(d string, doc obj) *config.Config {
	b, err := json.Marshal(doc)
	hx.Must(err)
	file := filepath.Join(d, "config.json")
	hx.Must(os.WriteFile(file, b, 0o644))
	var cfg config.Config
	if err := cfg.LoadFromFile(file); err != nil {
		hx.Env("the configuration is refused: %v", err)
	}
	return &cfg
}

// the evaluator of scripts

var (
	evalIn  io.Writer
	evalOut *bufio.Reader
)

type evaluated struct {
	Value, Err string
	Object     bool
	Extra      []string
}

func evaluate(script string) evaluated {
	if evalIn == nil {
		cmd := exec.Command("node", filepath.Join(os.Getenv("HX_HARNESS"), "c27", "eval.js"))
		cmd.Stderr = os.Stderr
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		in, err := cmd.StdinPipe()
		hx.Must(err)
		out, err := cmd.StdoutPipe()
		hx.Must(err)
		hx.Must(cmd.Start())
		evalIn, evalOut = in, bufio.NewReaderSize(out, 1<<20)
	}
	b, err := json.Marshal(script)
	hx.Must(err)
	_, err = evalIn.Write(append(b, '\n'))
	hx.Must(err)
	line, err := evalOut.ReadBytes('\n')
	hx.Must(err)
	var e evaluated
	hx.Must(json.Unmarshal(line, &e))
	return e
}

// page is what a browser makes of a page.
type page struct {
	shape   []string // elements, attributes, and the texts that do not depend on the configuration
	titles  []string // the title and what repeats it
	hosts   []string // urls with the host
	scripts []string
}

func parse(b []byte, title bool) (*page, error) {
	root, err := html.Parse(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	p := &page{}
	var walk func(n *html.Node, depth int)
	walk = func(n *html.Node, depth int) {
		pad := strings.Repeat(" ", depth)
		switch n.Type {
		case html.ElementNode:
			p.shape = append(p.shape, pad+"<"+n.Data+">")
			search := false
			for _, a := range n.Attr {
				search = search || a.Key == "rel" && a.Val == "search"
			}
			for _, a := range n.Attr {
				v := a.Val
				if search && a.Key == "href" {
					p.hosts = append(p.hosts, v)
					v = "..."
				}
				if search && a.Key == "title" {
					p.titles = append(p.titles, v)
					v = "..."
				}
				p.shape = append(p.shape, pad+a.Key+"="+v)
			}
			if n.Data == "script" {
				s := ""
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					s += c.Data
				}
				if strings.Contains(s, "ModelData =") && len(s) < 100000 && !strings.Contains(s, "React") {
					p.scripts = append(p.scripts, s)
				} else {
					p.shape = append(p.shape, pad+s)
				}
				return
			}
			if n.Data == "title" && title {
				s := ""
				for c := n.FirstChild; c != nil; c = c.NextSibling {
					s += c.Data
				}
				p.titles = append(p.titles, s)
				return
			}
		case html.TextNode:
			if s := strings.TrimSpace(n.Data); s != "" {
				p.shape = append(p.shape, pad+s)
			}
		case html.CommentNode:
			p.shape = append(p.shape, pad+"<!--"+n.Data)
		}
		for c := n.FirstChild; c != nil; c = c.NextSibling {
			walk(c, depth+1)
		}
	}
	walk(root, 0)
	return p, nil
}

func first(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "nothing", "nothing"
		if i < len(a) {
			x = fmt.Sprintf("%.200q", a[i])
		}
		if i < len(b) {
			y = fmt.Sprintf("%.200q", b[i])
		}
		if x != y {
			return x + ", want " + y
		}
	}
	return "longer texts differ"
}

// seenText is how a browser reads a text that cannot be written in html.
func seenText(s string) string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	return strings.ReplaceAll(s, "\x00", "\ufffd")
}

func unpercent(s string) string {
	if u, err := url.PathUnescape(s); err == nil {
		return u
	}
	// by hand, leaving what is not an escape
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && i+2 < len(s) {
			if u, err := url.PathUnescape(s[i : i+3]); err == nil {
				b.WriteString(u)
				i += 2
				continue
			}
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

type server struct {
	srv    *web.Server
	dev    bool
	title  string
	public map[string]obj
	text   string
}

func start(t hx.TB, d string, doc obj, title string, public map[string]obj, dev bool) *server {
	cfg := load(d, doc)
	s := &server{dev: dev, title: title, public: public}
	b, _ := json.Marshal(doc)
	s.text = string(b)
	s.srv = web.Start(cfg, "127.0.0.1:999999", dev) // cannot listen, asked directly
	hx.Bounded(t, "serving", func() { s.srv.ServeWithIndex(map[string]*searcher.Searcher{}) })
	return s
}

func request(method, path, host string) *http.Request {
	r := httptest.NewRequest(method, "/", nil)
	r.URL = &url.URL{Path: path}
	r.RequestURI = path
	r.Host = host
	return r
}

func (s *server) ask(t hx.TB, r *http.Request) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	var crash interface{}
	hx.Bounded(t, "an answer to "+r.RequestURI, func() {
		defer func() { crash = recover() }()
		s.srv.ServeHTTP(rec, r)
	})
	if crash != nil {
		t.Fatalf("%s %q, host %q: crash: %v\nconfiguration: %s", r.Method, r.RequestURI, r.Host, crash, s.text)
	}
	return rec
}

var base = map[string]*page{}

// baseline is the page of an innocent configuration.
func baseline(t hx.TB, d, path string, dev bool) *page {
	k := fmt.Sprint(path, dev)
	if base[k] == nil {
		s := start(t, d, obj{"repos": obj{"r": obj{"url": "https://h/r"}}}, "Hound", nil, dev)
		p, err := parse(s.ask(t, request("GET", path, "localhost")).Body.Bytes(), path == "/")
		hx.Must(err)
		base[k] = p
	}
	return base[k]
}

func same(want, got interface{}) bool {
	if hx.Same(want, got) {
		return true
	}
	// what is not configured may be left out
	switch w := want.(type) {
	case nil:
		return got == nil
	case obj:
		g, ok := got.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range w {
			if !same(v, g[k]) && !(g[k] == nil && zero(v)) {
				return false
			}
		}
		return true
	}
	return false
}

func zero(v interface{}) bool { return v == nil || v == false || v == "" || v == 0.0 }

// index checks the page with the repository list.
func (s *server) index(t hx.TB, d, host string) {
	rec := s.ask(t, request("GET", "/", host))
	body := rec.Body.Bytes()
	s.judge(t, d, host, rec.Code, body, rec.Result().Header.Get("Content-Type"))
}

func (s *server) judge(t hx.TB, d, host string, code int, body []byte, ctype string) {
	fail := func(f string, a ...interface{}) {
		t.Fatalf("/ with host %q, dev %v: %s\nconfiguration: %s\npage: %.1500s", host, s.dev, fmt.Sprintf(f, a...), s.text, body)
	}
	if code != 200 {
		fail("status %d", code)
	}
	if !strings.HasPrefix(ctype, "text/html") {
		fail("content type %q", ctype)
	}
	p, err := parse(body, true)
	if err != nil {
		fail("%v", err)
	}
	b := baseline(t, d, "/", s.dev)
	if !hx.Same(p.shape, b.shape) {
		fail("the page's structure changes: %s", first(p.shape, b.shape))
	}
	if len(p.titles) != len(b.titles) || len(p.hosts) != len(b.hosts) || len(p.scripts) != 1 {
		fail("%d titles, %d urls, %d scripts with the repositories", len(p.titles), len(p.hosts), len(p.scripts))
	}
	for _, x := range p.titles {
		if x != seenText(s.title) {
			fail("the title is %q, want %q", x, seenText(s.title))
		}
	}
	for _, x := range p.hosts {
		if got, want := seenText(unpercent(x)), seenText(unpercent("//"+host+"/open_search.xml")); got != want {
			fail("the link is %q (%q), want %q", x, got, want)
		}
	}
	e := evaluate(p.scripts[0])
	if js := s.ask(t, request("GET", "/js/hound.js", "localhost")).Body.String(); e.Object && strings.Contains(js, "JSON.parse(ModelData)") {
		fail("ModelData is not the text that hound.js takes it for")
	}
	if e.Err != "" || len(e.Extra) > 0 {
		fail("the script with the repositories: %s %q: %.1000q", e.Err, e.Extra, p.scripts[0])
	}
	var got map[string]interface{}
	if err := json.Unmarshal([]byte(e.Value), &got); err != nil {
		fail("the script's value is %.1000s", e.Value)
	}
	for n, w := range s.public {
		g, ok := got[n]
		if !ok {
			fail("the repository %q is not on the page", n)
		}
		if !same(w, g) {
			wb, _ := json.Marshal(w)
			gb, _ := json.Marshal(g)
			fail("the repository %q is %s on the page, want %s", n, gb, wb)
		}
	}
	if len(got) != len(s.public) {
		fail("%d repositories on the page, want %d: %s", len(got), len(s.public), e.Value)
	}
}

// openSearch checks the description of the search engine.
func (s *server) openSearch(t hx.TB, d, host string) {
	rec := s.ask(t, request("GET", "/open_search.xml", host))
	fail := func(f string, a ...interface{}) {
		t.Fatalf("/open_search.xml with host %q: %s\n%s", host, fmt.Sprintf(f, a...), rec.Body)
	}
	if rec.Code != 200 {
		fail("status %d", rec.Code)
	}
	shape := func(body []byte) (els []string, urls []string, err error) {
		dec := xml.NewDecoder(bytes.NewReader(body))
		for {
			tok, err := dec.Token()
			if err == io.EOF {
				return els, urls, nil
			}
			if err != nil {
				return nil, nil, err
			}
			switch x := tok.(type) {
			case xml.StartElement:
				els = append(els, "<"+x.Name.Local)
				for _, a := range x.Attr {
					v := a.Value
					if a.Name.Local == "template" {
						urls = append(urls, v)
						v = "..."
					}
					els = append(els, a.Name.Local+"="+v)
				}
			case xml.EndElement:
				els = append(els, ">")
			case xml.CharData:
				els = append(els, strings.TrimSpace(string(x)))
			case xml.Comment:
				els = append(els, "<!--"+string(x))
			case xml.Directive:
				els = append(els, "<!"+string(x))
			}
		}
	}
	els, urls, err := shape(rec.Body.Bytes())
	if err != nil {
		fail("not well-formed: %v", err)
	}
	brec := s.ask(t, request("GET", "/open_search.xml", "localhost"))
	bels, burls, err := shape(brec.Body.Bytes())
	if err != nil || len(burls) != 1 || burls[0] != "http://localhost/?q={searchTerms}" {
		t.Fatalf("/open_search.xml: %v, %q", err, burls)
	}
	if !hx.Same(els, bels) {
		fail("the structure changes: %s", first(els, bels))
	}
	if want := "http://" + host + "/?q={searchTerms}"; len(urls) != 1 || urls[0] != want && unpercent(urls[0]) != unpercent(want) {
		fail("the url is %q, want %q", urls, want)
	}
}

// xmlText tells whether a text can be written in an xml attribute and read
// back as it is.
func xmlText(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0xfffe || r == 0xffff || r == 0xfffd {
			return false
		}
	}
	return true
}

func TestPages(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		var ss []*server
		for i := rapid.IntRange(1, 2).Draw(t, "servers"); i > 0; i-- {
			doc, title, public := gen(t)
			ss = append(ss, start(t, d, doc, title, public, rapid.IntRange(0, 4).Draw(t, "dev") == 0))
		}
		n, odd := 0, 0
		for i := rapid.IntRange(1, 3).Draw(t, "rounds"); i > 0; i-- {
			s := rapid.SampledFrom(ss).Draw(t, "server")
			host := hostText(t)
			s.index(t, d, host)
			if h := strings.Map(func(r rune) rune {
				if xmlText(string(r)) {
					return r
				}
				return 'x'
			}, host); true {
				s.openSearch(t, d, h)
			}
			rec := s.ask(t, request("GET", "/excluded_files.html", host))
			p, err := parse(rec.Body.Bytes(), false)
			if b := baseline(t, d, "/excluded_files.html", s.dev); err != nil || rec.Code != 200 || !hx.Same(p.shape, b.shape) || len(p.titles)+len(p.scripts) > 0 {
				t.Fatalf("/excluded_files.html with host %q: status %d, %v\nconfiguration: %s", host, rec.Code, err, s.text)
			}
			n++
			odd += len(s.public)
			if !s.dev && rapid.IntRange(0, 7).Draw(t, "many") == 0 {
				// several at once
				var wg sync.WaitGroup
				recs := make([]*httptest.ResponseRecorder, 4)
				for k := range recs {
					recs[k] = httptest.NewRecorder()
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						s.srv.ServeHTTP(recs[k], request("GET", "/", fmt.Sprintf("h%d", k)))
					}(k)
				}
				hx.Bounded(t, "several requests", wg.Wait)
				for k, rec := range recs {
					s.judge(t, d, fmt.Sprintf("h%d", k), rec.Code, rec.Body.Bytes(), rec.Result().Header.Get("Content-Type"))
				}
			}
		}
		hx.Count(ss[0].text, odd > 0)
		hx.Class("pages checked", int64(n))
	})
}

var files = func() map[string]string {
	m := map[string]string{}
	root := "/repo/ui/assets"
	err := filepath.WalkDir(root, func(p string, e fs.DirEntry, err error) error {
		if err == nil && e.Type().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[strings.TrimPrefix(p, root)] = string(b)
		}
		return err
	})
	if err != nil {
		hx.Env("%v", err)
	}
	return m
}()

func TestAssets(t *testing.T) {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var srvs [2]*server
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		dev := rapid.IntRange(0, 3).Draw(t, "dev") == 0
		k := 0
		if dev {
			k = 1
		}
		if srvs[k] == nil {
			srvs[k] = start(t, d, obj{"repos": obj{"r": obj{"url": "https://h/r"}}}, "Hound", nil, dev)
		}
		s := srvs[k]
		p := rapid.SampledFrom(names).Draw(t, "file")
		data := files[p]
		method := rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "CONNECT", "OPTIONS"}).Draw(t, "method")
		known := true
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1, 2:
			if method != "HEAD" {
				method = "GET"
			}
		case 3: // something near
			i := rapid.IntRange(1, len(p)).Draw(t, "at")
			switch rapid.IntRange(0, 5).Draw(t, "change") {
			case 0:
				p = p[:i]
			case 1:
				p = p[:i] + rapid.SampledFrom([]string{"x", "\x00", "é", ".", "%2e", " ", "\\", "*"}).Draw(t, "c") + p[i:]
			case 2:
				p = strings.ToUpper(p)
			case 3:
				p = p + rapid.SampledFrom([]string{"/", ".", "~", "/x", "\x00"}).Draw(t, "suffix")
			case 4:
				p = "/.build/ui" + p
			case 5:
				p = "/assets" + p
			}
			known = false
		case 4:
			p = rapid.SampledFrom([]string{"/index.html", "/../ui.go", "/ui.go", "/../../go.mod", "/config.json", "/.", "/..", "/ ", "/%", "/js", "/css/octicons", "/\xff", "/nope/", "/" + strings.Repeat("a", 5000), "*", "", "x", "/api", "/api/v1"}).Draw(t, "odd path")
			known = false
		case 5:
			p = "/" + rapid.String().Draw(t, "any path")
			known = false
		}
		r := request(method, p, "localhost")
		lo, hi := 0, len(data)
		if known && len(data) > 0 && rapid.IntRange(0, 2).Draw(t, "part") == 0 {
			lo = rapid.IntRange(0, len(data)-1).Draw(t, "from")
			hi = rapid.IntRange(lo+1, len(data)).Draw(t, "to")
			r.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", lo, hi-1))
		}
		rec := s.ask(t, r)
		what := fmt.Sprintf("%s %q (dev %v)", method, p, dev)
		if known {
			if rec.Code != 200 && !(rec.Code == 206 && r.Header.Get("Range") != "") {
				t.Fatalf("%s: status %d", what, rec.Code)
			}
			want := data
			if rec.Code == 206 {
				want = data[lo:hi]
			}
			if got := rec.Body.String(); method == "GET" && got != want || method == "HEAD" && got != "" {
				t.Fatalf("%s, range %q: %d bytes that are not the file's: %s", what, r.Header.Get("Range"), len(got), first([]string{got}, []string{want}))
			}
			if l := rec.Result().Header.Get("Content-Length"); l != "" && l != fmt.Sprint(len(want)) {
				t.Fatalf("%s: content length %s, want %d", what, l, len(want))
			}
			ct := map[string]string{".css": "text/css", ".png": "image/png", ".gif": "image/gif", ".svg": "image/svg+xml"}[filepath.Ext(p)]
			if got := rec.Result().Header.Get("Content-Type"); !strings.HasPrefix(got, ct) {
				t.Fatalf("%s: content type %q, want %q", what, got, ct)
			}
		} else {
			q := filepath.Clean("/" + p)
			_, isFile := files[q]
			dir := false
			for n := range files {
				dir = dir || strings.HasPrefix(n, strings.TrimSuffix(q, "/")+"/")
			}
			page := q == "/" || q == "/open_search.xml" || q == "/excluded_files.html" || q == "/healthz"
			switch {
			case rec.Code >= 500 && !dev: // a file server of the standard library, which fails for impossible names
				t.Fatalf("%s: status %d", what, rec.Code)
			case isFile || page || dir || strings.HasPrefix(q, "/api/v1"):
				// names something, more or less
			case rec.Code == 301 || rec.Code == 307 || rec.Code == 308 || rec.Code == 302:
				// to be asked for in another way
			case rec.Code < 400:
				t.Fatalf("%s: status %d %.200q", what, rec.Code, rec.Body)
			case rec.Code != 404 && strings.HasPrefix(p, "/") && strings.Trim(p, "%-_.abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/ ") == "" && len(p) < 200:
				t.Fatalf("%s: status %d, want 404", what, rec.Code)
			}
		}
		hx.Count(what, known || rec.Code == 404)
	})
}

var _ = time.Now
