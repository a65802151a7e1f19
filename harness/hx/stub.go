package hx

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Stand-ins for hg, svn, svnversion and bzr: links to the test binary, which
// then acts as a small version control tool on the state kept in $HX_STUB.

// StubRemote is a repository the stand-ins know under its url.
type StubRemote struct {
	Rev        string
	Tree       Tree
	User, Pass string // asked for by svn when not empty
}

// StubState is what the stand-ins read.
type StubState struct {
	Remotes map[string]*StubRemote
	Fail    map[string]string // "clone", "pull" and "rev" -> how
	Pad     [2]string         // white space around the revision
	Noise   int               // bytes written to stdout and stderr by clone and pull
	Hold    string            // clone and pull wait while this file exists, and say so in <Hold>.here
}

// StubCall is one invocation.
type StubCall struct {
	Args []string
	Dir  string
}

const stubMark = "hxstub" // in .hg, .svn or .bzr: the url

// Stubs prepares the stand-ins below dir and puts them first in PATH. remove
// takes them away again.
func Stubs(dir string) (set func(StubState), calls func() []StubCall, remove func()) {
	self, err := os.Executable()
	Must(err)
	bin := filepath.Join(dir, "bin")
	Must(os.MkdirAll(bin, 0o755))
	for _, n := range []string{"hg", "svn", "svnversion", "bzr"} {
		Must(os.Symlink(self, filepath.Join(bin, n)))
	}
	old := os.Getenv("PATH")
	os.Setenv("PATH", bin+":"+old)
	os.Setenv("HX_STUB", dir)
	set = func(s StubState) {
		var b bytes.Buffer
		Must(gob.NewEncoder(&b).Encode(s))
		Must(os.WriteFile(filepath.Join(dir, "state.new"), b.Bytes(), 0o644))
		Must(os.Rename(filepath.Join(dir, "state.new"), filepath.Join(dir, "state")))
	}
	calls = func() (cs []StubCall) {
		for i := 0; ; i++ {
			b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("call%d", i)))
			if err != nil {
				return cs
			}
			f := strings.Split(string(b), "\x00")
			cs = append(cs, StubCall{Dir: f[0], Args: f[1:]})
		}
	}
	return set, calls, func() {
		os.Setenv("PATH", old)
		os.Unsetenv("HX_STUB")
	}
}

// StubLink takes one tool away (or puts it back).
func StubLink(dir, tool string, there bool) {
	p := filepath.Join(dir, "bin", tool)
	os.Remove(p)
	if there {
		self, err := os.Executable()
		Must(err)
		Must(os.Symlink(self, p))
	}
}

// stubMain acts as the tool the process was started as, if it was.
func stubMain() {
	state := os.Getenv("HX_STUB")
	tool := filepath.Base(os.Args[0])
	if state == "" || strings.HasSuffix(tool, ".test") {
		return
	}
	switch tool {
	case "hg", "svn", "svnversion", "bzr":
	default:
		return
	}
	wd, _ := os.Getwd()
	for i := 0; ; i++ {
		f, err := os.OpenFile(filepath.Join(state, fmt.Sprintf("call%d", i)), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
		if err == nil {
			f.WriteString(wd + "\x00" + strings.Join(append([]string{tool}, os.Args[1:]...), "\x00"))
			f.Close()
			break
		}
		if !os.IsExist(err) {
			break
		}
	}
	b, err := os.ReadFile(filepath.Join(state, "state"))
	var s StubState
	if err == nil {
		err = gob.NewDecoder(bytes.NewReader(b)).Decode(&s)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "stub:", err)
		os.Exit(99)
	}
	os.Exit(stub(s, tool, os.Args[1:]))
}

func die(f string, a ...interface{}) int {
	fmt.Fprintf(os.Stderr, "abort: "+f+"\n", a...)
	return 255
}

func stub(s StubState, tool string, args []string) int {
	meta := map[string]string{"hg": ".hg", "svn": ".svn", "svnversion": ".svn", "bzr": ".bzr"}[tool]
	valued := map[string]bool{"--username": true, "--password": true, "--template": true, "-T": true, "-r": true, "--rev": true,
		"--revision": true, "-R": true, "--repository": true, "--cwd": true, "--show-item": true, "--config": true, "--config-dir": true, "-d": true, "--directory": true, "--depth": true}
	opts := map[string]string{}
	var pos []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "--":
			pos = append(pos, args[i+1:]...)
			i = len(args)
		case valued[a] && i+1 < len(args):
			i++
			opts[a] = args[i]
		case strings.HasPrefix(a, "--") && strings.Contains(a, "="):
			k, v, _ := strings.Cut(a, "=")
			opts[k] = v
		case strings.HasPrefix(a, "-") && a != "-":
			opts[a] = ""
		default:
			pos = append(pos, a)
		}
	}
	for _, k := range []string{"--cwd", "-R", "--repository", "-d", "--directory"} {
		if d, ok := opts[k]; ok {
			if err := os.Chdir(d); err != nil {
				return die("%v", err)
			}
		}
	}
	op := "rev"
	if tool != "svnversion" {
		if len(pos) == 0 {
			return die("no command")
		}
		switch pos[0] {
		case "clone", "branch", "checkout", "co", "get":
			op = "clone"
		case "pull", "update", "up", "fetch":
			op = "pull"
		case "log", "id", "identify", "parent", "parents", "revno", "version-info", "info":
			op = "rev"
		default:
			return die("unknown command %q", pos[0])
		}
		pos = pos[1:]
	}
	fail := func(when string) {
		how, ok := s.Fail[op]
		if !ok {
			return
		}
		how, late := strings.CutPrefix(how, "late ")
		if late != (when == "late") {
			return
		}
		how, mute := strings.CutPrefix(how, "mute ")
		if op == "rev" && !mute {
			fmt.Print("deadbeef\n") // a revision all the same
		}
		switch how {
		case "signal":
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		case "silent":
			os.Exit(1)
		case "big":
			fmt.Fprint(os.Stderr, strings.Repeat("no way\n", 30000))
			fmt.Print(strings.Repeat("no way\n", 30000))
			os.Exit(3)
		}
		os.Exit(die("%s fails", op))
	}
	auth := func(r *StubRemote) bool {
		return tool != "svn" || r.User == "" || opts["--username"] == r.User && opts["--password"] == r.Pass
	}
	noise := func() {
		if s.Noise > 0 {
			fmt.Print(strings.Repeat("A file\n", s.Noise/7))
			fmt.Fprint(os.Stderr, strings.Repeat("warning\n", s.Noise/8))
		}
	}
	fill := func(dir string, r *StubRemote, url string) {
		SyncTree(dir, Tree{}) // hound may not keep anything of its own there
		WriteTree(dir, r.Tree)
		WriteTree(dir, Tree{meta + "/" + stubMark: url, meta + "/rev": r.Rev, meta + "/store": "foo\nmeta data of " + tool + "\n"})
	}
	if s.Hold != "" && op != "rev" {
		if _, err := os.Stat(s.Hold); err == nil {
			os.WriteFile(s.Hold+".here", nil, 0o644)
			for i := 0; i < 30000 && err == nil; i++ {
				time.Sleep(2 * time.Millisecond)
				_, err = os.Stat(s.Hold)
			}
		}
	}
	fail("")
	switch op {
	case "clone":
		if len(pos) != 2 {
			return die("%s: %d arguments: %q", args, len(pos), pos)
		}
		r := s.Remotes[pos[0]]
		if r == nil {
			return die("no repository at %q", pos[0])
		}
		if !auth(r) {
			return die("authorization failed")
		}
		if _, err := os.Lstat(pos[1]); err == nil {
			return die("%q exists", pos[1])
		}
		if err := os.Mkdir(pos[1], 0o755); err != nil {
			return die("%v", err)
		}
		fill(pos[1], r, pos[0])
		noise()
	case "pull":
		b, err := os.ReadFile(filepath.Join(meta, stubMark))
		if err != nil {
			return die("not a working copy")
		}
		r := s.Remotes[string(b)]
		if r == nil {
			return die("no repository at %q", b)
		}
		if !auth(r) {
			return die("authorization failed")
		}
		if tool == "hg" {
			if _, a := opts["-u"]; !a {
				if _, b := opts["--update"]; !b && args[0] == "pull" {
					return 0 // pulled, not updated
				}
			}
		}
		fill(".", r, string(b))
		noise()
	case "rev":
		b, err := os.ReadFile(filepath.Join(meta, "rev"))
		if err != nil {
			return die("not a working copy")
		}
		fmt.Print(s.Pad[0] + string(b) + s.Pad[1])
	}
	fail("late")
	return 0
}
