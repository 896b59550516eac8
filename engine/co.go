package main

// Threads of control of a harness. Only one of them runs at a time, and it runs until it yields: the
// harness decides where, with the usual decisions, so that a schedule is a part of the path.

type coState struct {
	f      value
	resume chan bool
	yield  chan coMsg
	start  bool
	done   bool
	depth  int
	recov  []recEntry
}

type coMsg struct {
	ended bool
	pan   interface{}
}

type coKilled struct{}

func (in *Interp) coNew(f value) int {
	in.cos = append(in.cos, &coState{f: f})
	return len(in.cos) - 1
}

func (in *Interp) coResume(id int) bool {
	if id < 0 || id >= len(in.cos) {
		in.p.abort(abUnsupported, "no such thread of control")
	}
	c := in.cos[id]
	if c.done {
		return true
	}
	depth, recov, cur := in.depth, in.recov, in.curCo
	if !c.start {
		c.start = true
		c.depth = depth
		c.resume, c.yield = make(chan bool), make(chan coMsg)
		go func() {
			if !<-c.resume {
				c.yield <- coMsg{ended: true}
				return
			}
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(coKilled); ok {
						r = nil
					}
					c.yield <- coMsg{ended: true, pan: r}
					return
				}
				c.yield <- coMsg{ended: true}
			}()
			in.callValue(c.f, nil)
		}()
	}
	in.depth, in.recov, in.curCo = c.depth, c.recov, id+1
	c.resume <- true
	m := <-c.yield
	c.depth, c.recov = in.depth, in.recov
	in.depth, in.recov, in.curCo = depth, recov, cur
	if m.ended {
		c.done = true
		if m.pan != nil {
			panic(m.pan)
		}
	}
	return m.ended
}

func (in *Interp) coYield() {
	if in.curCo == 0 {
		in.p.abort(abUnsupported, "no thread of control to yield from")
	}
	c := in.cos[in.curCo-1]
	c.yield <- coMsg{}
	if !<-c.resume {
		panic(coKilled{})
	}
}

// coEnd ends the threads of control that a path leaves behind.
func (in *Interp) coEnd() {
	for _, c := range in.cos {
		if c.start && !c.done {
			c.done = true
			c.resume <- false
			<-c.yield
		}
	}
}
