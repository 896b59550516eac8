package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// HarnessRun is the configuration and the result of exploring one harness.
type HarnessRun struct {
	Name     string
	Params   map[string]int
	Budget   time.Duration
	MaxPaths int

	Paths, Infeasible, Stopped int
	Decisions                  int
	Forks                      int
	Steps                      int64
	Asserts, AssertsConst      int
	Unknowns                   int
	Queries, Sat, Unsat, Unk   int
	SolverErrors               int
	SolverTime                 time.Duration
	Unsupported                map[string]int
	Lost                       map[string]int
	Reach                      map[string]int
	Viol                       []violation
	violSeen, realSeen         map[string]int
	Samples                    []PathSample
	Unexplored                 int
	Complete                   bool
	Wall                       time.Duration
	Touched                    map[string]bool
	realizeLeft                int64
}

// PathSample is a finished path with its concrete model.
type PathSample struct {
	Inputs []replayInput
	Reach  []string
	Obs    []string
}

// stopFirst ends a run at its first counterexamples, for the tools that try many changes of the code
var stopFirst = os.Getenv("SYMGO_FIRST") != ""

type explorer struct {
	snaps      snapTable
	P          *Program
	fn         *ssa.Function
	run        *HarnessRun
	mu         sync.Mutex
	cond       *sync.Cond
	queue      []Item
	busy       int
	stop       bool
	rng        *rand.Rand
	maxSamples int
}

func explore(P *Program, fn *ssa.Function, run *HarnessRun, workers int, seed int64, solverBin string, solverTimeout int, maxSamples int) {
	x := &explorer{P: P, fn: fn, run: run, rng: rand.New(rand.NewSource(seed)), maxSamples: maxSamples, snaps: snapTable{m: map[*ssa.Function]*snapshot{}}}
	x.cond = sync.NewCond(&x.mu)
	x.queue = []Item{{}}
	run.Unsupported = map[string]int{}
	run.Lost = map[string]int{}
	run.Reach = map[string]int{}
	run.violSeen, run.realSeen = map[string]int{}, map[string]int{}
	run.Touched = map[string]bool{}
	run.realizeLeft = int64(40 * time.Second)
	t0 := time.Now()
	deadline := t0.Add(run.Budget)
	timer := time.AfterFunc(run.Budget, func() {
		x.mu.Lock()
		x.stop = true
		x.cond.Broadcast()
		x.mu.Unlock()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.worker(solverBin, solverTimeout, deadline)
		}()
	}
	wg.Wait()
	run.Unexplored = len(x.queue)
	run.Wall = time.Since(t0)
	run.Complete = run.Unexplored == 0 && run.Unknowns == 0 && len(run.Unsupported) == 0 && len(run.Lost) == 0
}

func (x *explorer) worker(bin string, timeout int, deadline time.Time) {
	sv, err := newSolver(bin, timeout)
	if err != nil {
		x.mu.Lock()
		x.run.Unsupported["solver: "+err.Error()]++
		x.mu.Unlock()
		return
	}
	defer sv.close()
	local := map[*ssa.Function]*cfn{}
	n := 0
	for {
		x.mu.Lock()
		for len(x.queue) == 0 && x.busy > 0 && !x.stop {
			x.cond.Wait()
		}
		if x.stop || len(x.queue) == 0 {
			x.cond.Broadcast()
			x.run.Queries += sv.Queries
			x.run.Sat += sv.Sat
			x.run.Unsat += sv.Unsat
			x.run.Unk += sv.Unknown
			x.run.SolverErrors += sv.Errors
			x.run.SolverTime += sv.Time
			x.mu.Unlock()
			return
		}
		// half of the time the most recent item, half a random one: depth and diversity
		i := len(x.queue) - 1
		if n%2 == 0 && i > 0 {
			i = x.rng.Intn(len(x.queue))
		}
		n++
		it := x.queue[i]
		x.queue[i] = x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		x.busy++
		x.mu.Unlock()

		x.runItem(sv, it, local)

		x.mu.Lock()
		x.busy--
		x.cond.Broadcast()
		x.mu.Unlock()
	}
}

func (x *explorer) runItem(sv *Solver, it Item, local map[*ssa.Function]*cfn) {
	p := newPath(sv, it)
	maxStep := 30000000
	if millions := x.run.Params["steps"]; millions > 0 {
		maxStep = millions * 1000000
	}
	in := &Interp{P: x.P, p: p, globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{}, maxStep: maxStep, maxDep: 3000, touched: map[*ssa.Function]bool{}, local: local, realizeLeft: &x.run.realizeLeft, snaps: &x.snaps, enough: func(key string) bool {
		x.mu.Lock()
		defer x.mu.Unlock()
		return x.run.realSeen[key] >= 4
	}}
	p.in = in
	p.params = x.run.Params
	kind, msg := "ok", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathAbort:
					switch r.kind {
					case abInfeasible:
						kind = "infeasible"
					case abStop:
						kind = "stop"
					default:
						kind, msg = "unsupported", r.msg
					}
				case targetPanic:
					kind, msg = "panic", in.panicText(r.v)
				default:
					st := string(debug.Stack())
					if i := strings.Index(st, "panic("); i >= 0 {
						st = st[i:]
					}
					lines := strings.Split(st, "\n")
					if len(lines) > 8 {
						lines = lines[:8]
					}
					kind, msg = "unsupported", fmt.Sprintf("engine: %v [%s]", r, strings.Join(lines, " | "))
				}
			}
		}()
		defer in.coEnd()
		in.call(x.fn, nil, nil)
	}()
	if kind == "panic" {
		p.violate("panic", "panic: "+msg, p.curModel(), false, nil)
	}
	var sample *PathSample
	if kind == "ok" && len(p.viol) == 0 {
		x.mu.Lock()
		take := len(x.run.Samples) < x.maxSamples || x.rng.Intn(x.run.Paths+1) < x.maxSamples
		x.mu.Unlock()
		if take {
			if m, real := p.realize(p.curModel(), nil); real {
				p.setModel(m)
				sample = &PathSample{Inputs: p.replayInputs(), Reach: p.reachL, Obs: in.renderObs()}
			}
		}
	}
	p.finish()

	x.mu.Lock()
	defer x.mu.Unlock()
	r := x.run
	switch kind {
	case "infeasible":
		r.Infeasible++
	case "unsupported":
		r.Unsupported[msg]++
	default:
		r.Paths++
	}
	if kind == "stop" {
		r.Stopped++
	}
	r.Decisions += len(p.decs)
	r.Forks += len(p.items)
	r.Steps += int64(in.steps)
	r.Asserts += p.asserts
	r.AssertsConst += p.assertsC
	r.Unknowns += p.unknowns
	for _, l := range p.lost {
		r.Lost[l]++
	}
	if kind != "infeasible" && kind != "unsupported" {
		for l := range p.reach {
			r.Reach[l]++
		}
	}
	for f := range in.touched {
		r.Touched[f.String()] = true
	}
	for _, v := range p.viol {
		key := v.kind + "|" + v.msg
		r.violSeen[key]++
		if v.real {
			// digests have their real values: more likely to be confirmed
			r.realSeen[key]++
			if r.realSeen[key] <= 4 {
				r.Viol = append(r.Viol, v)
			}
		} else if r.violSeen[key]-r.realSeen[key] <= 4 {
			r.Viol = append(r.Viol, v)
		}
	}
	if sample != nil {
		if len(r.Samples) < x.maxSamples {
			r.Samples = append(r.Samples, *sample)
		} else if x.maxSamples > 0 {
			r.Samples[x.rng.Intn(x.maxSamples)] = *sample
		}
	}
	x.queue = append(x.queue, p.items...)
	if r.MaxPaths > 0 && r.Paths >= r.MaxPaths {
		x.stop = true
	}
	total := 0
	real := 0
	for _, n := range r.violSeen {
		total += n
	}
	for _, n := range r.realSeen {
		real += n
	}
	if real >= 64 || total >= 1000 || stopFirst && total >= 4 {
		x.stop = true // plenty of counterexamples
	}
}

func (in *Interp) panicText(v value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "?"
		}
	}()
	if i, ok := v.(iface); ok {
		if n, ok := in.toNative(i); ok {
			return fmt.Sprint(n)
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return fmt.Sprintf("%T", v)
}

func (in *Interp) renderObs() (res []string) {
	for _, o := range in.p.obs {
		for _, v := range o.vals {
			res = append(res, o.label+"="+in.render(v.(iface)))
		}
	}
	return
}

func (in *Interp) render(a iface) string {
	if a.t == nil {
		return "nil"
	}
	bytesText := func(b []*Term) string {
		r := make([]byte, len(b))
		for i, t := range b {
			r[i] = byte(in.p.eval(t))
		}
		return hex.EncodeToString(r)
	}
	switch v := a.v.(type) {
	case *Term:
		x := in.p.eval(v)
		bi := basicOf(a.t)
		if bi.kind == 'b' {
			return strconv.FormatBool(x != 0)
		}
		if bi.signed {
			return strconv.FormatInt(sext64(x, v.w), 10)
		}
		return strconv.FormatUint(x, 10)
	case string:
		return hex.EncodeToString([]byte(v))
	case *symStr:
		return bytesText(v.b)
	case []value:
		if el, ok := a.t.Underlying().(*types.Slice); ok && basicOf(el.Elem()).w == 8 {
			return bytesText(bytesOf(v))
		}
	}
	return "?"
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
