package hx

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"

	"pgregory.net/rapid"
)

// GitKill says where a git that hound runs comes to a sudden end: in the At-th
// run of a git command, at the When-th call of a system call.
type GitKill struct {
	Cmd  string // "clone", "fetch" or "reset"
	At   int
	Call string
	When int
	Mode string // "git": git is killed; "all": git and hound; "after": hound, when git is done
}

func (k GitKill) String() string {
	if k.Mode == "after" {
		return fmt.Sprintf("hound killed after git %s #%d", k.Cmd, k.At)
	}
	return fmt.Sprintf("%s killed in git %s #%d at %s #%d", map[string]string{"git": "git", "all": "everything"}[k.Mode], k.Cmd, k.At, k.Call, k.When)
}

// GitKillGen generates them.
var GitKillGen = rapid.Custom(func(t *rapid.T) GitKill {
	k := GitKill{
		Cmd:  rapid.SampledFrom([]string{"clone", "clone", "reset", "fetch"}).Draw(t, "command"),
		At:   1,
		Mode: rapid.SampledFrom([]string{"all", "all", "git", "after"}).Draw(t, "mode"),
		Call: rapid.SampledFrom([]string{"openat", "write", "close", "mkdir", "rename", "unlink", "link", "pipe2"}).Draw(t, "call"),
	}
	if k.Cmd != "clone" {
		k.Mode = rapid.SampledFrom([]string{"all", "git", "git", "after"}).Draw(t, "mode of a pull")
		k.At = rapid.IntRange(1, 3).Draw(t, "at")
	}
	most := map[string]int{"openat": 60, "write": 35, "close": 50, "mkdir": 12, "rename": 7, "unlink": 20, "link": 6, "pipe2": 4}[k.Call]
	k.When = rapid.IntRange(1, most).Draw(t, "when")
	return k
})

const killGitScript = `#!/bin/sh
D=%s
GIT=%s
if [ "$1" = "%s" ]; then
	echo x >>"$D/count"
	if [ "$(wc -l <"$D/count")" -eq %d ]; then
		case %s in
		after)
			"$GIT" "$@"
			: >"$D/hit"
			kill -9 $PPID
			exit 1;;
		git)
			strace -f -qq -s 0 -o "$D/trace" -e trace=%[6]s -e inject=%[6]s:signal=KILL:when=%[7]d "$GIT" "$@"
			rc=$?
			grep -q 'killed by SIGKILL' "$D/trace" && : >"$D/hit"
			exit $rc;;
		esac
		: >"$D/trace"
		setsid strace -f -qq -s 0 -o "$D/trace" -e trace=%[6]s -e inject=%[6]s:signal=STOP:when=%[7]d "$GIT" "$@" &
		p=$!
		echo $p >"$D/group"
		while kill -0 $p 2>/dev/null; do
			if grep -q 'stopped by SIGSTOP' "$D/trace"; then
				: >"$D/hit"
				kill -9 $PPID
				kill -9 -- -$p
				exit 1
			fi
			sleep 0.004
		done
		wait $p
		exit $?
	fi
fi
exec "$GIT" "$@"
`

// Install makes dir/git, which does it, and returns the environment with it.
func (k GitKill) Install(dir string) []string {
	git, err := exec.LookPath("git")
	Must(err)
	Must(os.MkdirAll(dir, 0o755))
	s := fmt.Sprintf(killGitScript, dir, git, k.Cmd, k.At, k.Mode, k.Call, k.When)
	Must(os.WriteFile(filepath.Join(dir, "git"), []byte(s), 0o755))
	return []string{"PATH=" + dir + ":" + os.Getenv("PATH")}
}

// Hit tells whether it happened.
func (k GitKill) Hit(dir string) bool {
	_, err := os.Stat(filepath.Join(dir, "hit"))
	return err == nil
}

// Sweep ends what still runs of it.
func (k GitKill) Sweep(dir string) {
	b, _ := os.ReadFile(filepath.Join(dir, "group"))
	var pid int
	if n, _ := fmt.Sscan(string(b), &pid); n == 1 && pid > 1 {
		syscall.Kill(-pid, syscall.SIGKILL)
	}
}
