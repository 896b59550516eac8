// Package fslock models an advisory file lock bound to the inode that is at the path when it is taken.
package fslock

import (
	"errors"
	"path/filepath"
	"time"

	"github.com/steve-care-software/rodkina/verifh/env/core"
)

// errors of the modelled package
var (
	ErrTimeout = errors.New("lock timeout exceeded")
	ErrLocked  = errors.New("fslock is already locked")
)

// Lock is a file lock
type Lock struct {
	filename string
	held     *core.Inode
}

// New creates a lock
func New(filename string) *Lock { return &Lock{filename: filename} }

// TryLock takes the lock or fails
func (l *Lock) TryLock() error {
	if core.Step("lock", l.filename, true) {
		return core.ErrFault
	}
	core.Ensure()
	p := filepath.Clean(l.filename)
	ino := core.Files[p]
	if ino == nil {
		ino = &core.Inode{}
		core.Files[p] = ino
	}
	core.Point("flock", l.filename)
	if ino.Locked {
		return ErrLocked
	}
	ino.Locked = true
	l.held = ino
	return nil
}

// Lock takes the lock; waiting for ever is reported as a failure
func (l *Lock) Lock() error { return l.TryLock() }

// LockWithTimeout takes the lock
func (l *Lock) LockWithTimeout(d time.Duration) error {
	if err := l.TryLock(); err != nil {
		if err == ErrLocked {
			return ErrTimeout
		}
		return err
	}
	return nil
}

// Unlock releases the lock
func (l *Lock) Unlock() error {
	if l.held == nil {
		return errors.New("bad file descriptor")
	}
	core.Point("unlock", l.filename)
	l.held.Locked = false
	l.held = nil
	return nil
}
