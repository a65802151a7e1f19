// C25: update and webhook endpoints act exactly on the permitted repositories.
package c25

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/hound-search/hound/api"
	"github.com/hound-search/hound/searcher"
	"pgregory.net/rapid"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

var names = []string{"r", "hound-search/hound", "Repo Two", "é", "\"q\"", "<b>", "a&b=c", "100%", "R"}

type world struct {
	*hx.World
	mux   *http.ServeMux
	push  map[string]bool
	r     map[string]*hx.WRepo
	named map[string]bool // in a request that may have updated it
	hist  []string
}

func (w *world) say(f string, a ...interface{}) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }

func (w *world) fail(t hx.TB, f string, a ...interface{}) {
	t.Fatalf("%s\nhistory: %s", fmt.Sprintf(f, a...), strings.Join(w.hist, "; "))
}

// pulls counts what was begun.
func (w *world) pulls(n string) int {
	b, _ := w.r[n].R.Pulls()
	return b
}

// send sends the request and checks that the answer is JSON.
func (w *world) send(t hx.TB, r *http.Request, what string) int {
	rec := httptest.NewRecorder()
	var crash interface{}
	hx.Bounded(t, "an answer to "+what, func() {
		defer func() { crash = recover() }()
		w.mux.ServeHTTP(rec, r)
	})
	if crash != nil {
		w.fail(t, "%s: crash: %v", what, crash)
	}
	var v interface{}
	if err := json.Unmarshal(rec.Body.Bytes(), &v); err != nil {
		w.fail(t, "%s: no JSON: %.300q", what, rec.Body)
	}
	if m, ok := v.(map[string]interface{}); (rec.Code == 200) == (ok && m["Error"] != nil) {
		w.fail(t, "%s: status %d with %.300q", what, rec.Code, rec.Body)
	}
	w.say("%s -> %d", what, rec.Code)
	return rec.Code
}

var methods = []string{"GET", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS", "post", "X"}

func form(t *rapid.T, method, path string, v url.Values) *http.Request {
	enc := v.Encode()
	k := rapid.IntRange(0, 2).Draw(t, "form")
	if method != "POST" || k == 0 {
		return httptest.NewRequest(method, path+"?"+enc, nil)
	}
	r := httptest.NewRequest(method, path, strings.NewReader(enc))
	r.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	return r
}

// body is a webhook body and the answers it may get; name: the repository.
func (w *world) body(t *rapid.T) (b []byte, codes []int, name string) {
	name = rapid.SampledFrom(append([]string{"nope", "hound", ""}, names...)).Draw(t, "full name")
	known := func() []int {
		if w.r[name] == nil {
			return []int{404}
		}
		if !w.push[name] {
			return []int{403}
		}
		return []int{200}
	}
	junk := rapid.SampledFrom([]interface{}{nil, 1, "x", true, []int{1}, map[string]interface{}{"name": "r", "full_name": "r"}, strings.Repeat("x", 100000)})
	repo := map[string]interface{}{"full_name": name}
	doc := map[string]interface{}{"repository": repo}
	for i := rapid.IntRange(0, 3).Draw(t, "extras"); i > 0; i-- {
		repo[rapid.SampledFrom([]string{"id", "owner", "url", "html_url", "description", "é", "fullname", "full-name"}).Draw(t, "key")] = junk.Draw(t, "value")
		doc[rapid.SampledFrom([]string{"ref", "before", "commits", "pusher", "sender", "organization", "name"}).Draw(t, "key")] = junk.Draw(t, "value")
	}
	if rapid.Bool().Draw(t, "name") {
		repo["name"] = rapid.SampledFrom(names).Draw(t, "short name")
	}
	enc := func() []byte {
		var b []byte
		var err error
		if rapid.Bool().Draw(t, "indent") {
			b, err = json.MarshalIndent(doc, " ", "\t")
		} else {
			b, err = json.Marshal(doc)
		}
		hx.Must(err)
		return b
	}
	switch k := rapid.IntRange(0, 11).Draw(t, "body"); {
	case k < 6:
		return enc(), known(), name
	case k == 6: // cut off
		b = bytes.TrimSpace(enc())
		return b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut")], []int{400}, ""
	case k == 7: // one byte changed
		b = enc()
		i := rapid.IntRange(0, min(len(b)-1, 200)).Draw(t, "at")
		b = append(append(append([]byte{}, b[:i]...), rapid.SampledFrom([]string{"", "{", "}", "\"", ",", "\\", "\x00", "\xff"}).Draw(t, "byte")...), b[i+1:]...)
		if json.Valid(b) {
			return b, nil, "" // whatever it says now
		}
		if json.NewDecoder(bytes.NewReader(b)).Decode(new(interface{})) == nil {
			return b, nil, "" // a valid value with something after it
		}
		return b, []int{400}, ""
	case k == 8: // a wrong type
		wrong := rapid.SampledFrom([]interface{}{1, 1.5, true, []string{name}, map[string]string{"x": name}}).Draw(t, "wrong")
		if rapid.Bool().Draw(t, "whole") {
			doc["repository"] = rapid.SampledFrom([]interface{}{1, "r", true, []interface{}{repo}}).Draw(t, "repository")
		} else {
			repo["full_name"] = wrong
		}
		return enc(), []int{400}, ""
	case k == 9: // not there
		switch rapid.IntRange(0, 3).Draw(t, "missing") {
		case 0:
			delete(doc, "repository")
			delete(doc, "name")
		case 1:
			delete(repo, "full_name")
		case 2:
			doc["repository"] = nil
		case 3:
			repo["full_name"] = nil
		}
		return enc(), []int{404, 400}, ""
	case k == 10:
		s := rapid.SampledFrom([]string{"", " ", "[]", "0", "\"r\"", "true", "payload=%7B%7D", "{", "{}}{", strings.Repeat("[", 200000), strings.Repeat(`{"repository":`, 20000), "\ufeff{}", "\x00"}).Draw(t, "text")
		if s == "{}}{" {
			return []byte(s), []int{400, 404}, ""
		}
		return []byte(s), []int{400}, ""
	}
	return []byte("null"), []int{400, 404}, ""
}

func has(codes []int, c int) bool {
	for _, x := range codes {
		if x == c {
			return true
		}
	}
	return false
}

func TestEndpoints(t *testing.T) {
	rapid.Check(t, func(t *rapid.T) {
		d, rm := hx.Scratch()
		defer rm()
		defer hx.DropRemotes()
		w := &world{World: hx.NewWorld(d, 4), push: map[string]bool{}, r: map[string]*hx.WRepo{}, named: map[string]bool{}}
		for i, n := range rapid.SliceOfNDistinct(rapid.SampledFrom(names), 1, 4, rapid.ID[string]).Draw(t, "names") {
			w.push[n] = rapid.IntRange(0, 2).Draw(t, "push") > 0
			// polls, if any, come years later
			poll := rapid.Bool().Draw(t, "poll")
			w.r[n] = w.Add(n, fmt.Sprintf("fake://c25/%d", i), poll, w.push[n], 1000000000000, hx.SmallTree(t, "tree"))
			if !w.push[n] && rapid.Bool().Draw(t, "unset") {
				w.r[n].Conf.EnablePushUpdates = nil // off by default
			}
			w.say("repository %q push %v poll %v", n, w.push[n], poll)
		}
		for n, err := range w.Start(t) {
			t.Fatalf("%s: %v", n, err)
		}
		defer w.Stop(t)
		idx := map[string]*searcher.Searcher{}
		for _, r := range w.Repos {
			idx[r.Name] = r.S
		}
		w.mux = http.NewServeMux()
		api.Setup(w.mux, idx, 5000)
		base := map[string]int{}
		var all []string
		for n := range w.r {
			base[n] = w.pulls(n)
			all = append(all, n)
		}
		sort.Strings(all)
		var releases []func()
		defer func() {
			for _, f := range releases {
				f()
			}
		}()
		updated, refused := 0, 0
		// pulled waits until each is pulled anew, and searched as published
		pulled := func(list []string, before map[string]int) {
			for _, n := range list {
				n := n
				hx.Eventually(t, fmt.Sprintf("a pull of %q (history: %s)", n, strings.Join(w.hist, "; ")), func() bool { return w.pulls(n) > before[n] })
				hx.Eventually(t, fmt.Sprintf("the new contents of %q (history: %s)", n, strings.Join(w.hist, "; ")), func() bool {
					no, err := w.r[n].Check(0)
					if err != nil {
						w.fail(t, "%v", err)
					}
					return no == w.r[n].Head().No
				})
				updated++
			}
		}
		// send sends a request that names the repositories, with something new to pull
		send := func(req *http.Request, what string, list []string, codes []int) {
			before := map[string]int{}
			var held []func()
			for _, n := range list {
				if w.push[n] && rapid.IntRange(0, 3).Draw(t, "in a pull") == 0 {
					// the request arrives during another pull
					arrived, release := w.r[n].R.Hold()
					releases = append(releases, release)
					w.r[n].S.Update()
					w.named[n] = true
					select {
					case <-arrived:
					case <-time.After(hx.Patience()):
						w.fail(t, "%q is not pulled after Update", n)
					}
					held = append(held, release)
					w.say("%q is being pulled", n)
				}
			}
			for _, n := range list {
				if rapid.Bool().Draw(t, "publish") {
					w.r[n].Publish(hx.SmallTree(t, "tree"), false)
				}
			}
			for n := range w.r {
				before[n] = w.pulls(n)
			}
			code := w.send(t, req, what)
			for _, f := range held {
				f()
			}
			if codes != nil && !has(codes, code) {
				w.fail(t, "%s: status %d, want %v", what, code, codes)
			}
			if code == 200 {
				for _, n := range list {
					w.named[n] = w.named[n] || w.push[n]
				}
				pulled(list, before)
			} else {
				refused++
			}
		}
		for k := rapid.IntRange(1, 8).Draw(t, "requests"); k > 0; k-- {
			switch rapid.IntRange(0, 4).Draw(t, "kind") {
			case 0: // another method
				m := rapid.SampledFrom(methods).Draw(t, "method")
				n := rapid.SampledFrom(all).Draw(t, "n")
				var req *http.Request
				if rapid.Bool().Draw(t, "hook") {
					b, _, _ := w.body(t)
					req = httptest.NewRequest(m, "/api/v1/github-webhook", bytes.NewReader(b))
				} else {
					req = form(t, m, "/api/v1/update", url.Values{"repos": {n}})
				}
				code := w.send(t, req, m+" "+req.URL.String())
				if code != 405 {
					w.fail(t, "%s %s: status %d, want 405", m, req.URL, code)
				}
				refused++
			case 1, 2: // update
				var list []string
				text := "*"
				unknown, off := false, false
				if rapid.IntRange(0, 3).Draw(t, "all") == 0 {
					list = all
				} else {
					var l []string
					seen := map[string]bool{}
					for _, n := range rapid.SliceOfN(rapid.SampledFrom(append(append([]string{"nope"}, all...), all...)), 1, 4).Draw(t, "list") {
						l = append(l, n)
						unknown = unknown || w.r[n] == nil
						if w.r[n] != nil && !seen[n] {
							seen[n] = true
							list = append(list, n)
						}
					}
					text = strings.Join(l, ",")
				}
				for _, n := range list {
					off = off || !w.push[n]
				}
				codes := []int{200}
				if off {
					codes = []int{403}
					for _, n := range list {
						w.named[n] = w.named[n] || w.push[n] // may be updated
					}
				}
				if unknown {
					codes = append(codes, 404) // the documentation does not say
				}
				send(form(t, "POST", "/api/v1/update", url.Values{"repos": {text}}), fmt.Sprintf("update %q", text), list, codes)
			default: // webhook
				b, codes, n := w.body(t)
				var list []string
				if w.r[n] != nil && codes != nil {
					list = []string{n}
				}
				if codes == nil {
					for _, x := range all {
						w.named[x] = w.named[x] || w.push[x]
					}
				}
				req := httptest.NewRequest("POST", "/api/v1/github-webhook", bytes.NewReader(b))
				req.Header.Set("Content-Type", rapid.SampledFrom([]string{"application/json", "", "application/x-www-form-urlencoded", "text/plain"}).Draw(t, "type"))
				req.Header.Set("X-GitHub-Event", rapid.SampledFrom([]string{"push", "ping", "x"}).Draw(t, "event"))
				send(req, fmt.Sprintf("webhook %.300q", b), list, codes)
			}
		}
		time.Sleep(5 * time.Millisecond)
		for _, n := range all {
			if !w.named[n] && w.pulls(n) != base[n] {
				w.fail(t, "%q (push updates %v) was pulled %d times, though no request that named it was granted", n, w.push[n], w.pulls(n)-base[n])
			}
			if _, err := w.r[n].Check(0); err != nil {
				w.fail(t, "%v", err)
			}
		}
		hx.Count(strings.Join(w.hist, "; "), updated > 0 && refused > 0)
		hx.Class("repositories updated", int64(updated))
		hx.Class("requests refused", int64(refused))
	})
}
