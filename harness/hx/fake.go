package hx

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/vcs"
)

// The fake version control system: the harness owns the remote. A working copy
// is filled with the remote's tree by Clone and Pull, and the harness decides
// whether that fails, blocks, or leaves something that cannot be indexed.

// Mode is how the next pulls of a remote behave.
type Mode int

const (
	OK          Mode = iota
	FailPull         // the pull fails and leaves the working copy alone
	FailPartial      // the pull fails after changing the working copy
	Unindexable      // the pull succeeds, but the working copy is gone when it is indexed
	Unreadable       // ... but a file of it cannot be read (needs an unprivileged user)
)

// Remote is one fake repository.
type Remote struct {
	Url string

	mu      sync.Mutex
	rev     string
	tree    Tree
	auto    []string
	mode    Mode
	pulls   int // pulls and clones begun
	done    int // ... and ended
	clones  int
	gate    chan struct{}
	arrived chan struct{}
	put     func(dir string, tr Tree) // how a tree is written; nil: WriteTree
	onPull  func()
}

var (
	remotesMu sync.Mutex
	remotes   = map[string]*Remote{}

	diskMu sync.Mutex

	activeMu  sync.Mutex
	active    int
	maxActive int
)

func init() { vcs.Register(newFake, "hxfake") }

// NewRemote makes a remote with a process-wide unique url.
func NewRemote(url, rev string, tr Tree) *Remote {
	r := &Remote{Url: url, rev: rev, tree: tr}
	remotesMu.Lock()
	remotes[url] = r
	remotesMu.Unlock()
	return r
}

// DropRemotes forgets all remotes.
func DropRemotes() {
	remotesMu.Lock()
	remotes = map[string]*Remote{}
	remotesMu.Unlock()
}

// Set publishes a new revision.
func (r *Remote) Set(rev string, tr Tree) {
	r.mu.Lock()
	r.rev, r.tree = rev, tr
	r.mu.Unlock()
}

// SetAuto sets the files that the remote's attributes mark as generated.
func (r *Remote) SetAuto(files []string) {
	r.mu.Lock()
	r.auto = files
	r.mu.Unlock()
}

// SetMode decides how pulls behave from now on.
func (r *Remote) SetMode(m Mode) {
	r.mu.Lock()
	r.mode = m
	r.mu.Unlock()
}

// SetWriter replaces the way a tree is written to the working copy.
func (r *Remote) SetWriter(f func(dir string, tr Tree)) {
	r.mu.Lock()
	r.put = f
	r.mu.Unlock()
}

// OnPull runs f inside every pull, while it counts as active.
func (r *Remote) OnPull(f func()) {
	r.mu.Lock()
	r.onPull = f
	r.mu.Unlock()
}

// Head is the published revision and tree.
func (r *Remote) Head() (string, Tree) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.rev, r.tree
}

// Pulls counts the pulls begun and ended so far.
func (r *Remote) Pulls() (begun, ended int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.pulls, r.done
}

// Clones counts the clones begun so far.
func (r *Remote) Clones() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.clones
}

// Hold makes following pulls block; arrived gets a token from each.
func (r *Remote) Hold() (arrived <-chan struct{}, release func()) {
	g := make(chan struct{})
	a := make(chan struct{}, 1024)
	r.mu.Lock()
	r.gate, r.arrived = g, a
	r.mu.Unlock()
	var once sync.Once
	return a, func() {
		once.Do(func() {
			r.mu.Lock()
			if r.gate == g {
				r.gate = nil
			}
			r.mu.Unlock()
			close(g)
		})
	}
}

// ResetActive forgets the concurrency record; Active reads it.
func ResetActive() {
	activeMu.Lock()
	maxActive = active
	activeMu.Unlock()
}

// Active returns the number of pulls going on and the most seen at once.
func Active() (now, most int) {
	activeMu.Lock()
	defer activeMu.Unlock()
	return active, maxActive
}

type fakeDriver struct {
	Special []string `json:"special"`
	Ref     string   `json:"ref"`
}

func newFake(b []byte) (vcs.Driver, error) {
	d := &fakeDriver{}
	if b != nil {
		if err := json.Unmarshal(b, d); err != nil {
			return nil, err
		}
	}
	return d, nil
}

// remote finds the repository behind a url, or one branch of it.
func (d *fakeDriver) remote(url string) *Remote {
	if d.Ref != "" {
		url += "#" + d.Ref
	}
	remotesMu.Lock()
	defer remotesMu.Unlock()
	return remotes[url]
}

const fakeMark = ".hxfake"

func (d *fakeDriver) sync(dir, url string) (string, error) {
	r := d.remote(url)
	if r == nil {
		return "", errors.New("hxfake: no such remote: " + url)
	}
	r.mu.Lock()
	r.pulls++
	gate, arrived, onPull := r.gate, r.arrived, r.onPull
	r.mu.Unlock()
	activeMu.Lock()
	active++
	if active > maxActive {
		maxActive = active
	}
	activeMu.Unlock()
	defer func() {
		activeMu.Lock()
		active--
		activeMu.Unlock()
		r.mu.Lock()
		r.done++
		r.mu.Unlock()
	}()
	if onPull != nil {
		onPull()
	}
	if gate != nil {
		arrived <- struct{}{}
		<-gate
	}
	r.mu.Lock()
	rev, tr, mode, put := r.rev, r.tree, r.mode, r.put
	r.mu.Unlock()
	if put == nil {
		put = WriteTree
	}
	if mode == FailPull {
		return "", errors.New("hxfake: pull failed as ordered")
	}
	// like a real tool, this locks the working copy
	diskMu.Lock()
	defer diskMu.Unlock()
	if mode == Unindexable {
		// the working copy is gone when the indexer looks for it
		Must(os.RemoveAll(dir))
		return rev, nil
	}
	// the working copy is replaced in steps that a killed process can leave
	next, prev := dir+".next", dir+".prev"
	Must(os.RemoveAll(next))
	Must(os.RemoveAll(prev))
	Must(os.MkdirAll(next, 0o755))
	Must(os.WriteFile(filepath.Join(next, fakeMark), []byte(url), 0o644))
	put(next, tr)
	if mode == Unreadable {
		Must(os.Chmod(filepath.Join(next, tr.Paths()[len(tr)-1]), 0))
	}
	if err := os.Rename(dir, prev); err != nil && !os.IsNotExist(err) {
		Must(err)
	}
	Must(os.Rename(next, dir))
	Must(os.RemoveAll(prev))
	if mode == FailPartial {
		return "", fmt.Errorf("hxfake: pull failed half way as ordered")
	}
	return rev, nil
}

func (d *fakeDriver) Clone(dir, url string) (string, error) {
	if r := d.remote(url); r != nil {
		r.mu.Lock()
		r.clones++
		r.mu.Unlock()
	}
	return d.sync(dir, url)
}

func (d *fakeDriver) Pull(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, fakeMark))
	if err != nil {
		return "", err
	}
	return d.sync(dir, string(b))
}

func (d *fakeDriver) HeadRev(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, fakeMark))
	if err != nil {
		return "", err
	}
	r := d.remote(string(b))
	if r == nil {
		return "", errors.New("hxfake: no such remote")
	}
	rev, _ := r.Head()
	return rev, nil
}

func (d *fakeDriver) SpecialFiles() []string { return append([]string{fakeMark}, d.Special...) }

func (d *fakeDriver) AutoGeneratedFiles(dir string) []string {
	b, err := os.ReadFile(filepath.Join(dir, fakeMark))
	if err != nil {
		return nil
	}
	r := d.remote(string(b))
	if r == nil {
		return nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.auto...)
}

// FakeRepo is the configuration of a repository of the fake system.
func FakeRepo(url string, poll, push bool, ms int) *config.Repo {
	return &config.Repo{
		Url: url, Vcs: "hxfake", MsBetweenPolls: ms,
		EnablePollUpdates: &poll, EnablePushUpdates: &push,
	}
}
