// Package core is the model of the environment of the database code: an in-memory
// file system with one optional fault and one optional crash point, advisory locks and a clock.
package core

import (
	"errors"
	"time"
)

// Inode is a file or a directory
type Inode struct {
	Data   []byte
	Dir    bool
	Locked bool
}

// Crash is the panic value of a simulated process crash
type Crash struct{}

// ErrFault is the injected input/output error
var ErrFault = errors.New("injected input/output error")

// the state of the machine
var (
	Files     map[string]*Inode
	Open      int  // open handles
	Steps     int  // environment steps so far
	Mutations int  // mutating steps so far
	FaultOn   bool // inject an error
	FaultAt   uint // ... at this step
	FaultHit  bool
	FaultOp   string
	Partial   int // bytes a failing write still stores: 0 none, 1 half, 2 all but one, 3 all
	CrashOn   bool
	CrashAt   uint
	CrashHit  bool
	OnStep    func(op string, path string) // scheduling hook for a second process
	OnPoint   func(op string, path string) // called before every environment call, by whichever process makes it
	inHook    bool
	clock     int64
	ClockFn   func() int64
	Armed     bool
	Log       []string
)

// Reset restores the initial state of the machine
func Reset() {
	Files = map[string]*Inode{}
	Files["/"] = &Inode{Dir: true}
	Files["."] = &Inode{Dir: true}
	Open, Steps, Mutations = 0, 0, 0
	FaultOn, FaultHit, CrashOn, CrashHit, Armed = false, false, false, false, false
	FaultAt, CrashAt = 0, 0
	FaultOp = ""
	Partial = 0
	OnStep, OnPoint, ClockFn = nil, nil, nil
	inHook = false
	clock = 1600000000000000000
	Log = nil
}

// Now returns the current time
func Now() time.Time {
	if ClockFn != nil {
		return time.Unix(0, ClockFn())
	}
	clock += 1000000007
	return time.Unix(0, clock)
}

// Step is one environment call. It reports whether the call must fail.
// A crash before the call takes effect happens here.
func Step(op string, path string, mutates bool) bool {
	if !Armed {
		return false
	}
	if OnStep != nil && !inHook {
		inHook = true
		OnStep(op, path)
		inHook = false
	}
	if OnPoint != nil {
		OnPoint(op, path)
	}
	if CrashOn && CrashHit && mutates {
		panic(Crash{}) // nothing takes effect after the crash
	}
	n := Steps
	Steps++
	if CrashOn && !CrashHit && mutates {
		m := Mutations
		Mutations++
		if CrashAt == uint(m) {
			CrashHit = true
			panic(Crash{})
		}
	}
	if FaultOn && !FaultHit && FaultAt == uint(n) {
		FaultHit = true
		FaultOp = op
		return true
	}
	return false
}

// Point is a moment at which another process may run
func Point(op string, path string) {
	if Armed && OnPoint != nil {
		OnPoint(op, path)
	}
}

// Ensure initialises the machine when the package variables are still unset
func Ensure() {
	if Files == nil {
		Reset()
	}
}
