// Package sym is the harness interface: under the symbolic engine every function
// here is intercepted; natively the values come from a recorded assignment.
package sym

import (
	"encoding/hex"
	"fmt"
	"strconv"
)

// Input is one recorded value
type Input struct {
	N string `json:"n"`
	K string `json:"k"`
	V uint64 `json:"v"`
}

// Stopped ends a native run
type Stopped struct {
	Kind string
	Msg  string
}

// State of a native run
var (
	inputs  []Input
	pos     int
	params  map[string]int
	Reached []string
	Obs     []string
)

// Reset prepares a native run
func Reset(in []Input, p map[string]int) {
	inputs, pos, params, Reached, Obs = in, 0, p, nil, nil
	cos, curCo = nil, -1
}

func next(name string) uint64 {
	if pos >= len(inputs) {
		// beyond the recorded assignment: every further value is zero
		pos++
		return 0
	}
	in := inputs[pos]
	if in.N != name {
		panic(Stopped{"mismatch", fmt.Sprintf("input %d is %q, recorded %q", pos, name, in.N)})
	}
	pos++
	return in.V
}

// Byte returns an arbitrary byte
func Byte(name string) byte { return byte(next(name)) }

// Uint8 returns an arbitrary value
func Uint8(name string) uint8 { return uint8(next(name)) }

// Uint16 returns an arbitrary value
func Uint16(name string) uint16 { return uint16(next(name)) }

// Uint32 returns an arbitrary value
func Uint32(name string) uint32 { return uint32(next(name)) }

// Uint64 returns an arbitrary value
func Uint64(name string) uint64 { return next(name) }

// Uint returns an arbitrary value
func Uint(name string) uint { return uint(next(name)) }

// Int64 returns an arbitrary value
func Int64(name string) int64 { return int64(next(name)) }

// Int returns an arbitrary value
func Int(name string) int { return int(next(name)) }

// Bool returns an arbitrary value
func Bool(name string) bool { return next(name) != 0 }

// Bytes returns n arbitrary bytes
func Bytes(name string, n int) []byte {
	out := make([]byte, n)
	for i := range out {
		out[i] = byte(next(name + "[" + strconv.Itoa(i) + "]"))
	}
	return out
}

// Choice returns an arbitrary value below n; one path per value
func Choice(name string, n int) int { return int(next(name)) }

// Concrete forks over the values of v
func Concrete(v int) int { return v }

// Assume restricts the claim
func Assume(c bool) {
	if !c {
		panic(Stopped{"assume", ""})
	}
}

// Assert states the property
func Assert(c bool, msg string) {
	if !c {
		panic(Stopped{"assert", msg})
	}
}

// Fail is a property violation
func Fail(msg string) { panic(Stopped{"assert", msg}) }

// Reach records a witness that this point is reachable
func Reach(label string) {
	for _, l := range Reached {
		if l == label {
			return
		}
	}
	Reached = append(Reached, label)
}

// Stop ends the run quietly
func Stop() { panic(Stopped{"stop", ""}) }

// And is conjunction without branching
func And(a, b bool) bool { return a && b }

// Or is disjunction without branching
func Or(a, b bool) bool { return a || b }

// EqBytes compares without branching
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// IteInt selects without branching
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Param is a bound configured per tier
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

// Symbolic is true under the engine
func Symbolic() bool { return false }

// Observe records a value that the engine and the native run must agree on
func Observe(label string, v interface{}) {
	s := "?"
	switch x := v.(type) {
	case nil:
		s = "nil"
	case bool:
		s = strconv.FormatBool(x)
	case int:
		s = strconv.Itoa(x)
	case int64:
		s = strconv.FormatInt(x, 10)
	case uint:
		s = strconv.FormatUint(uint64(x), 10)
	case uint64:
		s = strconv.FormatUint(x, 10)
	case uint8:
		s = strconv.FormatUint(uint64(x), 10)
	case string:
		s = hex.EncodeToString([]byte(x))
	case []byte:
		s = hex.EncodeToString(x)
	}
	Obs = append(Obs, label+"="+s)
}

// Once returns what f builds. f must not depend on inputs, and Once must be the first statement of
// a harness: the engine executes f in the first path and gives every other path a copy.
func Once(f func() interface{}) interface{} { return f() }

// co is a second thread of control; only one of them runs at a time
type co struct {
	resume chan bool
	yield  chan interface{}
	done   bool
}

type coYielded struct{}
type coEnded struct{}

var (
	cos   []*co
	curCo = -1
)

// CoNew makes a thread of control that has not started yet
func CoNew(f func()) int {
	c := &co{resume: make(chan bool), yield: make(chan interface{})}
	cos = append(cos, c)
	go func() {
		if !<-c.resume {
			return
		}
		defer func() {
			if r := recover(); r != nil {
				c.yield <- r
				return
			}
			c.yield <- coEnded{}
		}()
		f()
	}()
	return len(cos) - 1
}

// CoResume runs a thread of control until it yields or ends, and reports whether it ended
func CoResume(id int) bool {
	c := cos[id]
	if c.done {
		return true
	}
	saved := curCo
	curCo = id
	c.resume <- true
	r := <-c.yield
	curCo = saved
	switch r.(type) {
	case coYielded:
		return false
	case coEnded:
		c.done = true
		return true
	}
	c.done = true
	panic(r)
}

// CoYield gives control back to the one that resumed the running thread of control
func CoYield() {
	c := cos[curCo]
	c.yield <- coYielded{}
	<-c.resume
}

// CoCurrent is the running thread of control, or -1
func CoCurrent() int { return curCo }
