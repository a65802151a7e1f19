package hx

import (
	"bytes"
	"errors"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Child is one run of the test binary in another process.
type Child struct {
	Strace []string // arguments of strace, nil to run without it
	Env    []string
	Stdin  []byte
	Uid    int // nonzero: run as this user
	Dir    string
}

// ChildEnd is how it ended.
type ChildEnd struct {
	Out, Err string
	Code     int // exit code, -1 when killed by a signal
	Signal   syscall.Signal
	Hang     bool
	Trace    string
}

// Run runs the child and waits for it, with its whole process group.
func (c Child) Run() ChildEnd {
	argv := []string{"/proc/self/exe"}
	var trace string
	if c.Strace != nil {
		self, err := os.Executable()
		Must(err)
		d, rm := Scratch()
		defer rm()
		trace = filepath.Join(d, "trace")
		argv = append(append([]string{"strace", "-f", "-qq", "-s", "0", "-o", trace}, c.Strace...), self)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = append(append(os.Environ(), "HX_STATS=", "HX_LOG="), c.Env...)
	cmd.Stdin = bytes.NewReader(c.Stdin)
	cmd.Dir = c.Dir
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if c.Uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(c.Uid), Gid: uint32(c.Uid), NoSetGroups: os.Getuid() != 0}
	}
	// the pipes may be held open by a grandchild
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		Env("cannot start a child: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var e ChildEnd
	var err error
	select {
	case err = <-done:
	case <-time.After(Watchdog):
		e.Hang = true
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if e.Hang {
		err = <-done
	}
	e.Out, e.Err = out.String(), errb.String()
	e.Code = cmd.ProcessState.ExitCode()
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		e.Signal = ws.Signal()
		e.Code = -1
	}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) && !errors.Is(err, exec.ErrWaitDelay) {
		Env("child: %v", err)
	}
	if trace != "" {
		b, _ := os.ReadFile(trace)
		if len(b) > 1<<20 {
			b = b[len(b)-1<<20:]
		}
		e.Trace = string(b)
	}
	return e
}

// Tail is the end of a text.
func Tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return strings.TrimSpace(s)
}

// Stop is for children: a failure there ends the process.
type Stop struct{}

func (Stop) Fatalf(format string, args ...interface{}) {
	os.Stderr.WriteString(sprintf(format, args...) + "\n")
	os.Exit(1)
}
func (Stop) Logf(format string, args ...interface{}) {}
