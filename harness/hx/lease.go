package hx

import (
	"os"
	"sync"
	"syscall"
	"time"
)

// Lease stops whoever opens a file, until it is released: this holds an index
// build in the middle. The kernel ends it by itself after its lease-break time
// (45 s).
type Lease struct {
	f    *os.File
	once sync.Once
}

const fSetLease, fGetLease = 1024, 1025

func leaseCall(fd, cmd, arg uintptr) (uintptr, bool) {
	for {
		r, _, e := syscall.Syscall(syscall.SYS_FCNTL, fd, cmd, arg)
		if e == syscall.EINTR {
			continue
		}
		return r, e == 0
	}
}

// TakeLease takes one; nil where the file system has none.
func TakeLease(path string) *Lease {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil
	}
	if _, ok := leaseCall(f.Fd(), fSetLease, syscall.F_WRLCK); !ok {
		f.Close()
		return nil
	}
	return &Lease{f: f}
}

// Asked tells whether someone is waiting to open the file.
func (l *Lease) Asked() bool {
	r, ok := leaseCall(l.f.Fd(), fGetLease, 0)
	return ok && r != syscall.F_WRLCK
}

// Wait waits until someone is; false after the given time.
func (l *Lease) Wait(d time.Duration) bool {
	end := time.Now().Add(d)
	for !l.Asked() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(300 * time.Microsecond)
	}
	return true
}

// Release lets them go on.
func (l *Lease) Release() {
	l.once.Do(func() {
		leaseCall(l.f.Fd(), fSetLease, syscall.F_UNLCK)
		l.f.Close()
	})
}
