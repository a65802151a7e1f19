// C22: what a configuration file says is what hound uses.
package c22

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/vcs"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

type obj = map[string]interface{}

func str(t *rapid.T, label string) string {
	return rapid.SampledFrom([]string{"x", "X y", "é日本", "<&>", "\"q\"", "a\\b", "\u2028", "{url}/{path}{anchor}", "#L{line}", "#", "https://h/r.git", "null", "0", " ", "\x00\x01", "\U0001F600"}).Draw(t, label)
}

// some tells whether an option is stated.
func some(t *rapid.T, label string) bool { return rapid.IntRange(0, 2).Draw(t, label+"?") == 0 }

// null sometimes states an option as null, which is the same as not stating it.
func null(t *rapid.T, o obj, key string) {
	if rapid.IntRange(0, 11).Draw(t, key+" null") == 0 {
		o[key] = nil
	}
}

func ms(t *rapid.T) int {
	return rapid.SampledFrom([]int{1, 5, 999, 30000, 30001, 10000, math.MaxInt32, math.MaxInt32 + 1}).Draw(t, "ms")
}

func genVal(t *rapid.T, depth int) interface{} {
	switch k := rapid.IntRange(0, 6).Draw(t, "val"); {
	case k == 0:
		return str(t, "s")
	case k == 1:
		return rapid.Bool().Draw(t, "b")
	case k == 2:
		return float64(rapid.IntRange(-1000, 1000).Draw(t, "n"))
	case k == 3:
		return ""
	case k == 4 && depth > 0:
		l := []interface{}{}
		for i := rapid.IntRange(0, 2).Draw(t, "len"); i > 0; i-- {
			l = append(l, genVal(t, depth-1))
		}
		return l
	case k == 5 && depth > 0:
		return genVcsConf(t, depth-1)
	}
	return rapid.SampledFrom([]string{"main", "dev"}).Draw(t, "ref")
}

func genVcsConf(t *rapid.T, depth int) obj {
	o := obj{}
	for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
		o[rapid.SampledFrom([]string{"ref", "detect-ref", "username", "password", "watch-changes", "ignored-files", "x", "é", ""}).Draw(t, "key")] = genVal(t, depth)
	}
	return o
}

// repo is what a repository's options should come to.
type repo struct {
	url, display, vcs, base, anchor string
	ms                              int
	exclude, poll, push             bool
	auto                            []string
	conf                            obj // nil: none
}

type conf struct {
	title, db, health  string // db "": not stated
	indexers, limit    int
	repos              map[string]*repo
	merged, overridden int
}

func copyObj(o obj) obj {
	c := obj{}
	for k, v := range o {
		c[k] = v
	}
	return c
}

// gen makes a configuration as a document and as what it means.
func gen(t *rapid.T) (obj, *conf) {
	doc := obj{}
	c := &conf{title: "Hound", health: "/healthz", indexers: 2, limit: 5000, repos: map[string]*repo{}}
	text := func(o obj, key string, to *string) {
		if some(t, key) {
			*to = str(t, key)
			o[key] = *to
		} else if rapid.IntRange(0, 11).Draw(t, key+" empty") == 0 {
			o[key] = "" // the same as not stating it
		} else {
			null(t, o, key)
		}
	}
	num := func(o obj, key string, to *int, f func(t *rapid.T) int) {
		if some(t, key) {
			*to = f(t)
			o[key] = *to
		} else if rapid.IntRange(0, 11).Draw(t, key+" zero") == 0 {
			o[key] = 0
		} else {
			null(t, o, key)
		}
	}
	flag := func(o obj, key string, to *bool) {
		if rapid.Bool().Draw(t, key+"?") {
			*to = rapid.Bool().Draw(t, key)
			o[key] = *to
		} else {
			null(t, o, key)
		}
	}
	text(doc, "title", &c.title)
	text(doc, "health-check-uri", &c.health)
	num(doc, "max-concurrent-indexers", &c.indexers, func(t *rapid.T) int { return rapid.IntRange(1, 100).Draw(t, "n") })
	num(doc, "result-limit", &c.limit, func(t *rapid.T) int {
		return rapid.SampledFrom([]int{1, 2, 4999, 5001, 100000, 1 << 40, -1}).Draw(t, "limit")
	})
	if some(t, "dbpath") {
		c.db = rapid.SampledFrom([]string{"data", "./data", "../data", "a/../b", "a b/é", ".", "/abs/path", "/", "//x", "data/", "~/x", "..."}).Draw(t, "dbpath")
		doc["dbpath"] = c.db
	}
	globals := map[string]obj{}
	if rapid.Bool().Draw(t, "globals") {
		g := obj{}
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			v := rapid.SampledFrom([]string{"git", "git", "svn", "hg", "local", "x"}).Draw(t, "vcs")
			if rapid.IntRange(0, 11).Draw(t, "null") == 0 {
				g[v] = nil
				delete(globals, v)
				continue
			}
			globals[v] = genVcsConf(t, 2)
			g[v] = globals[v]
		}
		doc["vcs-config"] = g
	} else {
		null(t, doc, "vcs-config")
	}
	rs := obj{}
	for i := rapid.IntRange(0, 4).Draw(t, "repos"); i > 0; i-- {
		name := str(t, "name")
		o := obj{}
		r := &repo{vcs: "git", base: "{url}/blob/{rev}/{path}{anchor}", anchor: "#L{line}", ms: 30000, poll: true}
		text(o, "url", &r.url)
		text(o, "display-name", &r.display)
		num(o, "ms-between-poll", &r.ms, ms)
		if rapid.Bool().Draw(t, "vcs?") {
			r.vcs = rapid.SampledFrom([]string{"git", "svn", "hg", "local", "bzr", "x"}).Draw(t, "vcs")
			o["vcs"] = r.vcs
		}
		if some(t, "pattern") {
			p := obj{}
			text(p, "base-url", &r.base)
			text(p, "anchor", &r.anchor)
			o["url-pattern"] = p
		} else {
			null(t, o, "url-pattern")
		}
		flag(o, "exclude-dot-files", &r.exclude)
		flag(o, "enable-poll-updates", &r.poll)
		flag(o, "enable-push-updates", &r.push)
		if some(t, "auto") {
			r.auto = rapid.SliceOfN(rapid.SampledFrom([]string{"a", "b/c.go", "é"}), 0, 3).Draw(t, "auto")
			o["auto-generated-files"] = r.auto
		}
		if rapid.Bool().Draw(t, "vcs-config?") {
			r.conf = genVcsConf(t, 2)
			o["vcs-config"] = copyObj(r.conf)
		} else {
			null(t, o, "vcs-config")
		}
		if g, ok := globals[r.vcs]; ok {
			c.merged++
			m := copyObj(g)
			for k, v := range r.conf {
				if _, both := m[k]; both {
					c.overridden++
				}
				m[k] = v
			}
			r.conf = m
		}
		rs[name] = o
		c.repos[name] = r
	}
	if len(rs) > 0 || rapid.Bool().Draw(t, "repos?") {
		doc["repos"] = rs
	}
	if some(t, "unknown") {
		doc["no such option"] = genVal(t, 1)
	}
	return doc, c
}

// encode writes the document with random white space and key order.
func encode(t *rapid.T, v interface{}) string {
	b, err := json.Marshal(v)
	hx.Must(err)
	switch rapid.IntRange(0, 2).Draw(t, "layout") {
	case 0:
		var o bytes.Buffer
		hx.Must(json.Indent(&o, b, "", "\t"))
		return "\n " + o.String() + "\r\n\t "
	case 1: // reversed key order on the first two levels
		return reversed(v, 3)
	}
	return string(b)
}

func reversed(v interface{}, depth int) string {
	o, ok := v.(obj)
	if !ok || depth == 0 {
		b, err := json.Marshal(v)
		hx.Must(err)
		return string(b)
	}
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Sort(sort.Reverse(sort.StringSlice(ks)))
	var ps []string
	for _, k := range ks {
		b, err := json.Marshal(k)
		hx.Must(err)
		ps = append(ps, string(b)+" : "+reversed(o[k], depth-1))
	}
	return "{" + strings.Join(ps, " , ") + "}"
}

// load loads the file, noticing a crash.
func load(file string) (c *config.Config, err error, crash interface{}) {
	defer func() {
		if r := recover(); r != nil {
			crash = r
		}
	}()
	c = &config.Config{}
	return c, c.LoadFromFile(file), nil
}

func same(a, b interface{}) bool {
	x, err := json.Marshal(a)
	hx.Must(err)
	y, err := json.Marshal(b)
	hx.Must(err)
	var p, q interface{}
	hx.Must(json.Unmarshal(x, &p))
	hx.Must(json.Unmarshal(y, &q))
	return hx.Same(p, q)
}

func judge(got *config.Config, want *conf, dir string) error {
	if got.Title != want.title {
		return fmt.Errorf("title %q, want %q", got.Title, want.title)
	}
	if got.HealthCheckURI != want.health {
		return fmt.Errorf("health-check-uri %q, want %q", got.HealthCheckURI, want.health)
	}
	if got.MaxConcurrentIndexers != want.indexers {
		return fmt.Errorf("max-concurrent-indexers %d, want %d", got.MaxConcurrentIndexers, want.indexers)
	}
	if got.ResultLimit != want.limit {
		return fmt.Errorf("result-limit %d, want %d", got.ResultLimit, want.limit)
	}
	db := want.db
	if !strings.HasPrefix(db, "/") {
		db = dir + "/" + db
	}
	if !filepath.IsAbs(got.DbPath) || filepath.Clean(got.DbPath) != filepath.Clean(db) {
		return fmt.Errorf("dbpath %q, want %q", got.DbPath, filepath.Clean(db))
	}
	if len(got.Repos) != len(want.repos) {
		return fmt.Errorf("%d repositories, want %d", len(got.Repos), len(want.repos))
	}
	for n, w := range want.repos {
		g := got.Repos[n]
		if g == nil {
			return fmt.Errorf("%q: missing", n)
		}
		if g.UrlPattern == nil {
			return fmt.Errorf("%q: no url pattern", n)
		}
		for _, f := range []struct {
			name      string
			got, want interface{}
		}{
			{"url", g.Url, w.url}, {"display-name", g.DisplayName, w.display}, {"ms-between-poll", g.MsBetweenPolls, w.ms},
			{"vcs", g.Vcs, w.vcs}, {"base-url", g.UrlPattern.BaseUrl, w.base}, {"anchor", g.UrlPattern.Anchor, w.anchor},
			{"exclude-dot-files", g.ExcludeDotFiles, w.exclude}, {"poll", g.PollUpdatesEnabled(), w.poll}, {"push", g.PushUpdatesEnabled(), w.push},
		} {
			if f.got != f.want {
				return fmt.Errorf("%q: %s is %v, want %v", n, f.name, f.got, f.want)
			}
		}
		if len(g.AutoGeneratedFiles)+len(w.auto) > 0 && !hx.Same(g.AutoGeneratedFiles, w.auto) {
			return fmt.Errorf("%q: auto-generated-files %q, want %q", n, g.AutoGeneratedFiles, w.auto)
		}
		var vc obj
		if b := g.VcsConfig(); len(b) > 0 {
			if err := json.Unmarshal(b, &vc); err != nil {
				return fmt.Errorf("%q: vcs-config %q: %v", n, b, err)
			}
		}
		if w.conf == nil && vc != nil || len(w.conf)+len(vc) > 0 && !same(w.conf, vc) {
			return fmt.Errorf("%q: vcs-config %v, want %v", n, vc, w.conf)
		}
	}
	return nil
}

// place makes a directory for the file and a way to name it.
func place(t *rapid.T, d string) (dir, name string, back func()) {
	dir = filepath.Join(d, rapid.SampledFrom([]string{"conf", "a b/é", "x/../y/z"}).Draw(t, "dir"))
	hx.Must(os.MkdirAll(filepath.Join(d, "x"), 0o755))
	hx.Must(os.MkdirAll(dir, 0o755))
	base := rapid.SampledFrom([]string{"config.json", "c", ".x y"}).Draw(t, "base")
	name = filepath.Join(dir, base)
	back = func() {}
	old, err := os.Getwd()
	hx.Must(err)
	switch rapid.IntRange(0, 3).Draw(t, "relative") {
	case 0:
		hx.Must(os.Chdir(dir))
		name, back = base, func() { hx.Must(os.Chdir(old)) }
	case 1:
		hx.Must(os.Chdir(d))
		name, err = filepath.Rel(d, name)
		hx.Must(err)
		back = func() { hx.Must(os.Chdir(old)) }
	case 2:
		hx.Must(os.MkdirAll(filepath.Join(dir, "sub"), 0o755))
		hx.Must(os.Chdir(filepath.Join(dir, "sub")))
		name, back = "../"+base, func() { hx.Must(os.Chdir(old)) }
	}
	return dir, name, back
}

func TestLoad(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		doc, want := gen(t)
		text := encode(t, doc)
		dir, name, back := place(t, d)
		defer back()
		hx.Must(os.WriteFile(name, []byte(text), 0o644))
		for i := 0; i < 2; i++ { // map orders differ
			got, err, crash := load(name)
			if crash != nil {
				t.Fatalf("crash: %v\nfile: %s", crash, text)
			}
			if err != nil {
				t.Fatalf("%v\nfile: %s", err, text)
			}
			if err := judge(got, want, filepath.Clean(dir)); err != nil {
				t.Fatalf("%v\nfile %s: %s", err, name, text)
			}
		}
		hx.Count(text, len(want.repos) > 0 && (want.merged > 0 || want.db != ""))
		hx.Class("repositories merged with global options", int64(want.merged))
		hx.Class("options overridden by a repository", int64(want.overridden))
	})
}

// TestInvalid loads files that are no valid configuration, or may not be.
func TestInvalid(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		doc, _ := gen(t)
		text := encode(t, doc)
		must := false // be refused
		odd := ""     // the repository whose driver is to refuse its options, "*": the file must be
		kind := rapid.IntRange(0, 5).Draw(t, "kind")
		switch kind {
		case 0: // cut off
			text = strings.TrimSpace(text)
			text = text[:rapid.IntRange(0, len(text)-1).Draw(t, "cut")]
		case 1: // something after the end
			text += rapid.SampledFrom([]string{"}", "{}", text, "x", "\x00", "//", ",", "]"}).Draw(t, "tail")
		case 2: // one byte changed
			i := rapid.IntRange(0, len(text)-1).Draw(t, "at")
			text = text[:i] + rapid.SampledFrom([]string{"", "{", "}", "[", "\"", ",", "0", "\\", "\x00", "\xff", "null"}).Draw(t, "byte") + text[i+rapid.IntRange(0, 1).Draw(t, "cut"):]
		case 3: // a wrong type
			must = true
			spoil(t, doc)
			text = encode(t, doc)
		case 4: // nulls and wrong types at places where either may be taken
			odd = lax(t, doc)
			text = encode(t, doc)
		case 5:
			text = rapid.SampledFrom([]string{"", " ", "null", "[]", "0", "\"x\"", "true", "[{}]", strings.Repeat("[", 100000), "{" + strings.Repeat(`"a":{`, 20000), "\ufeff{}"}).Draw(t, "whole")
			must = text != "null"
		}
		must = must || !json.Valid([]byte(text))
		name := filepath.Join(d, "config.json")
		switch rapid.IntRange(0, 30).Draw(t, "no file") {
		case 0:
			hx.Must(os.Mkdir(name, 0o755))
			must = true
		case 1:
			must = true
		case 2:
			hx.Must(os.Symlink(name, name))
			must = true
		default:
			hx.Must(os.WriteFile(name, []byte(text), 0o644))
		}
		var err error
		var crash interface{}
		var c *config.Config
		hx.Bounded(t, "LoadFromFile", func() { c, err, crash = load(name) })
		if len(text) > 3000 {
			text = text[:3000] + "..."
		}
		if crash != nil {
			t.Fatalf("crash: %v\nfile: %s", crash, text)
		}
		must = must || odd == "*"
		if odd == "r" && err == nil && c.Repos["r"] != nil {
			if _, err := vcs.New(c.Repos["r"].Vcs, c.Repos["r"].VcsConfig()); err == nil {
				t.Fatalf("options of the wrong type vanish\nfile: %s", text)
			}
		}
		if must && err == nil {
			t.Fatalf("no error\nfile: %s", text)
		}
		hx.Count(fmt.Sprint(kind, text), err != nil)
	})
}

// objects lists the document's options that have a definite type.
func spoil(t *rapid.T, doc obj) {
	type slot struct {
		o   obj
		key string
		typ string
	}
	slots := []slot{{doc, "title", "s"}, {doc, "dbpath", "s"}, {doc, "health-check-uri", "s"}, {doc, "max-concurrent-indexers", "i"}, {doc, "result-limit", "i"}, {doc, "repos", "o"}, {doc, "vcs-config", "o"}}
	if rs, ok := doc["repos"].(obj); ok {
		var ns []string
		for n := range rs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			o := rs[n].(obj)
			slots = append(slots, slot{rs, n, "o"}, slot{o, "url", "s"}, slot{o, "display-name", "s"}, slot{o, "ms-between-poll", "i"}, slot{o, "vcs", "s"},
				slot{o, "exclude-dot-files", "b"}, slot{o, "enable-poll-updates", "b"}, slot{o, "enable-push-updates", "b"}, slot{o, "auto-generated-files", "l"}, slot{o, "url-pattern", "o"})
			if p, ok := o["url-pattern"].(obj); ok {
				slots = append(slots, slot{p, "base-url", "s"}, slot{p, "anchor", "s"})
			}
		}
	}
	s := rapid.SampledFrom(slots).Draw(t, "slot")
	wrong := map[string]interface{}{"s": "x", "b": true, "i": 7, "l": []string{"x"}, "o": obj{}}
	delete(wrong, s.typ)
	var vals []interface{}
	for _, k := range []string{"s", "b", "i", "l", "o"} {
		if v, ok := wrong[k]; ok {
			vals = append(vals, v)
		}
	}
	if s.typ == "i" {
		vals = append(vals, 1.5, json.RawMessage("1e400"), json.RawMessage("99999999999999999999"))
	}
	s.o[s.key] = rapid.SampledFrom(vals).Draw(t, "wrong")
}

// lax puts unexpected values where a driver or nobody reads them.
func lax(t *rapid.T, doc obj) string {
	v := rapid.SampledFrom([]interface{}{nil, 1, "x", []string{}, true, obj{"ref": nil}, obj{}}).Draw(t, "value")
	vcs := rapid.SampledFrom([]string{"git", "svn", ""}).Draw(t, "vcs")
	g, _ := doc["vcs-config"].(obj)
	if g == nil {
		g = obj{}
		doc["vcs-config"] = g
	}
	rs, _ := doc["repos"].(obj)
	if rs == nil {
		rs = obj{}
		doc["repos"] = rs
	}
	_, isObj := v.(obj)
	bad := v != nil && !isObj
	switch rapid.IntRange(0, 3).Draw(t, "where") {
	case 0:
		g[vcs] = v
		if bad {
			return "*"
		}
	case 1:
		rs["r"] = v
		if bad {
			return "*"
		}
	case 2:
		g[vcs] = obj{"ref": "x"}
		rs["r"] = obj{"vcs": vcs, "vcs-config": v}
		if bad {
			return "r"
		}
	case 3:
		rs["r"] = obj{"vcs-config": v}
		if rapid.Bool().Draw(t, "and null") {
			rs["s"] = nil
		} else if bad {
			return "r"
		}
	}
	return ""
}
