package hx

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// GitRemote is a bare git repository that the harness writes with fast-import.
type GitRemote struct {
	Dir  string
	Refs map[string]*GitCommit // by branch
	Head string                // branch that HEAD names
	n    int
}

// GitCommit is one commit; a tree entry that begins with LinkMark is a
// symbolic link.
type GitCommit struct {
	Id   string
	Tree Tree
}

// LinkMark begins the content of symbolic links in trees given to git.
const LinkMark = "\x00link:"

func gitCmd(dir string, stdin string, args ...string) (string, error) {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Stdin = strings.NewReader(stdin)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	err := c.Run()
	if err != nil {
		err = fmt.Errorf("git %v: %v: %s", args, err, errb.String())
	}
	return out.String(), err
}

// Git runs git in dir; a failure is the harness's.
func Git(dir string, args ...string) string {
	out, err := gitCmd(dir, "", args...)
	Must(err)
	return strings.TrimSpace(out)
}

// NewGitRemote makes one; HEAD names the given branch.
func NewGitRemote(dir, head string) *GitRemote {
	Git("/", "init", "-q", "--bare", "--template=", dir)
	r := &GitRemote{Dir: dir, Refs: map[string]*GitCommit{}}
	r.SetHead(head)
	return r
}

// Url is its file:// url.
func (r *GitRemote) Url() string { return "file://" + r.Dir }

// SetHead makes HEAD name a branch, which need not exist.
func (r *GitRemote) SetHead(branch string) {
	r.Head = branch
	Must(os.WriteFile(filepath.Join(r.Dir, "HEAD"), []byte("ref: refs/heads/"+branch+"\n"), 0o644))
}

func gitQuote(p string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(p); i++ {
		switch c := p[i]; {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c < 0x20:
			fmt.Fprintf(&b, "\\%03o", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Commit makes tr the new tip of branch, on top of its present tip if parent
// is set, as a new history otherwise.
func (r *GitRemote) Commit(branch string, tr Tree, parent bool) *GitCommit {
	r.n++
	var b strings.Builder
	ref := "refs/heads/" + branch
	old := r.Refs[branch]
	if old == nil || !parent {
		fmt.Fprintf(&b, "reset %s\n", ref)
	}
	fmt.Fprintf(&b, "commit %s\nmark :1\ncommitter A <a@b> %d +0000\n", ref, 1500000000+r.n)
	msg := fmt.Sprintf("commit %d", r.n)
	fmt.Fprintf(&b, "data %d\n%s\n", len(msg), msg)
	if old != nil && parent {
		fmt.Fprintf(&b, "from %s\ndeleteall\n", old.Id)
	}
	for _, p := range tr.Paths() {
		mode, d := "100644", tr[p]
		if s, ok := strings.CutPrefix(d, LinkMark); ok {
			mode, d = "120000", s
		}
		fmt.Fprintf(&b, "M %s inline %s\ndata %d\n%s\n", mode, gitQuote(p), len(d), d)
	}
	b.WriteString("\nget-mark :1\ndone\n")
	out, err := gitCmd(r.Dir, b.String(), "fast-import", "--quiet", "--done", "--force")
	Must(err)
	c := &GitCommit{Id: strings.TrimSpace(out), Tree: tr.Clone()}
	r.Refs[branch] = c
	return c
}

// Point makes branch name an existing commit; nil deletes the branch.
func (r *GitRemote) Point(branch string, c *GitCommit) {
	if c == nil {
		Git(r.Dir, "update-ref", "-d", "refs/heads/"+branch)
		delete(r.Refs, branch)
		return
	}
	Git(r.Dir, "update-ref", "refs/heads/"+branch, c.Id)
	r.Refs[branch] = c
}

// ReadWork lists a working copy: every file, links marked, without .git.
func ReadWork(dir string) Tree {
	tr := Tree{}
	Must(filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == ".git" {
			return filepath.SkipDir
		}
		if e.IsDir() {
			return nil
		}
		if e.Type()&fs.ModeSymlink != 0 {
			s, err := os.Readlink(p)
			Must(err)
			tr[rel] = LinkMark + s
			return nil
		}
		b, err := os.ReadFile(p)
		Must(err)
		tr[rel] = string(b)
		return nil
	}))
	return tr
}

// DiffTrees describes the first difference.
func DiffTrees(want, got Tree) string { return diffFiles(want, got) }

// Spoil changes the time stamps of a file so that tools look at it again.
func Spoil(path string) {
	t := time.Unix(1400000000, 0)
	os.Chtimes(path, t, t)
}
