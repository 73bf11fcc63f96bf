// Package vflock stands in for github.com/gofrs/flock (same logic, on the
// stand-in for os, every system call being an announced operation).
package vflock

import (
	"context"
	"os"
	"sync"
	"syscall"
	"time"

	"verif/mc/sched"
	"verif/mc/vos"
)

// Flock is a file lock.
type Flock struct {
	path string
	m    sync.RWMutex
	fh   *vos.File
	l, r bool
}

func New(path string) *Flock             { return &Flock{path: path} }
func NewFlock(path string) *Flock        { return New(path) }
func (f *Flock) Close() error            { return f.Unlock() }
func (f *Flock) Path() string            { return f.path }
func (f *Flock) String() string          { return f.path }
func (f *Flock) Locked() bool            { return f.l }
func (f *Flock) RLocked() bool           { return f.r }
func (f *Flock) TryLock() (bool, error)  { return f.try(&f.l, syscall.LOCK_EX) }
func (f *Flock) TryRLock() (bool, error) { return f.try(&f.r, syscall.LOCK_SH) }
func (f *Flock) Lock() error             { return f.lock(&f.l, syscall.LOCK_EX) }
func (f *Flock) RLock() error            { return f.lock(&f.r, syscall.LOCK_SH) }

func (f *Flock) setFh() error {
	fh, err := vos.OpenFile(f.path, os.O_CREATE|os.O_RDONLY, os.FileMode(0600))
	if err != nil {
		return err
	}
	f.fh = fh
	return nil
}

func (f *Flock) try(locked *bool, flag int) (bool, error) {
	if !sched.Active() {
		f.m.Lock()
		defer f.m.Unlock()
	}
	if *locked {
		return true, nil
	}
	if f.fh == nil {
		if err := f.setFh(); err != nil {
			return false, err
		}
	}
	err := f.fh.Event("flock", func() error { return syscall.Flock(int(f.fh.Fd()), flag|syscall.LOCK_NB) })
	if err == syscall.EWOULDBLOCK {
		return false, nil
	}
	if err != nil {
		return false, err
	}
	*locked = true
	return true, nil
}

func (f *Flock) lock(locked *bool, flag int) error {
	for {
		ok, err := f.try(locked, flag)
		if ok || err != nil {
			return err
		}
		if sched.Active() {
			// blocked until the lock can be taken
			fd := int(f.fh.Fd())
			sched.Wait("file lock", func() bool {
				if e := syscall.Flock(fd, flag|syscall.LOCK_NB); e == nil {
					syscall.Flock(fd, syscall.LOCK_UN) //nolint
					return true
				}
				return false
			})
			continue
		}
		time.Sleep(time.Millisecond)
	}
}

// Unlock releases the lock.
func (f *Flock) Unlock() error {
	if !sched.Active() {
		f.m.Lock()
		defer f.m.Unlock()
	}
	if (!f.l && !f.r) || f.fh == nil {
		return nil
	}
	if err := f.fh.Event("funlock", func() error { return syscall.Flock(int(f.fh.Fd()), syscall.LOCK_UN) }); err != nil {
		return err
	}
	f.fh.Close() //nolint
	f.l, f.r, f.fh = false, false, nil
	return nil
}

func (f *Flock) TryLockContext(ctx context.Context, d time.Duration) (bool, error) {
	for {
		if ok, err := f.TryLock(); ok || err != nil {
			return ok, err
		}
		select {
		case <-ctx.Done():
			return false, ctx.Err()
		case <-time.After(d):
		}
	}
}
