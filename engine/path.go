package main

import (
	"crypto/sha512"
	"fmt"
	"math/rand"
	"strings"
	"sync/atomic"
	"time"
)

// Decision is one recorded choice of a path.
type Decision struct {
	taken bool
	conc  bool
	val   uint64
}

// Item is an unexplored path: a decision prefix with a model that reaches it.
type Item struct {
	prefix []Decision
	model  []uint64
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abLimit
	abUnknown
	abStop // path stopped after a definite violation, or by the harness
)

type pathAbort struct {
	kind abortKind
	msg  string
}

type input struct {
	name string
	t    *Term
	kind string
}

type hashApp struct {
	in  []*Term
	out [8]*Term // nil when the input was concrete
	res []*Term  // 64 result bytes

	live bool // its value occurs in a formula given to the solver
}

type violation struct {
	kind   string // assert | panic | hang
	msg    string
	inputs []replayInput
	solver bool // found by a solver query (as opposed to being false under the path's solver model)
	real   bool // every digest has its real value
}

type replayInput struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	Val  uint64 `json:"v"`
}

type obs struct {
	label string
	vals  []value
}

// Path is the state of one symbolic execution.
type Path struct {
	ts      *Terms
	ver     int32
	sv      *Solver
	known   map[*Term]bool
	concVal map[*Term]uint64
	pc      []*Term

	prefix []Decision
	pos    int
	decs   []Decision
	seed   []uint64

	items  []Item
	inputs []input
	hashes []*hashApp
	reach  map[string]bool
	reachL []string
	obs    []obs
	viol   []violation

	unknowns int // undecided branch sides
	lost     []string
	asserts  int // assertions discharged by a solver query
	assertsC int // assertions that folded to a constant
	emitBuf  strings.Builder

	in     *Interp
	params map[string]int
	inHash bool
}

func newPath(sv *Solver, it Item) *Path {
	p := &Path{ts: newTerms(), ver: 1, sv: sv, known: map[*Term]bool{}, concVal: map[*Term]uint64{}, prefix: it.prefix, seed: it.model, reach: map[string]bool{}}
	p.decs = make([]Decision, 0, len(it.prefix)+16)
	p.ts.hashOf = p.hashOf
	sv.write("(push 1)\n")
	return p
}

func (p *Path) finish() {
	if p.sv.dead {
		p.sv.restart()
		return
	}
	p.sv.write("(pop 1)\n")
}

func (p *Path) abort(k abortKind, format string, a ...interface{}) {
	panic(pathAbort{k, fmt.Sprintf(format, a...)})
}

func (p *Path) newVar(name string, w uint8) *Term {
	t := p.ts.newVar(name, w)
	i := len(p.ts.vars) - 1
	if i < len(p.seed) {
		t.val = p.seed[i] & mask(max8(w, 1))
	}
	return t
}

func max8(a, b uint8) uint8 {
	if a > b {
		return a
	}
	return b
}

func (p *Path) eval(t *Term) uint64 { return p.ts.eval(t, p.ver) }

// addPC asserts c on this path.
func (p *Path) addPC(c *Term) {
	if c.op == OpConst {
		return
	}
	p.pc = append(p.pc, c)
	p.learn(c, true)
	p.emitDefs(c)
	p.sv.write("(assert " + c.ref() + ")\n")
}

func (p *Path) learn(c *Term, v bool) {
	if c.op == OpNot {
		c = c.a
		v = !v
	}
	p.known[c] = v
	if c.op == OpAnd && v {
		p.learn(c.a, true)
		p.learn(c.b, true)
	}
	if c.op == OpOr && !v {
		p.learn(c.a, false)
		p.learn(c.b, false)
	}
}

func (p *Path) emitDefs(c *Term) {
	p.emitBuf.Reset()
	emit(c, 1, &p.emitBuf)
	if p.emitBuf.Len() == 0 {
		return
	}
	p.sv.write(p.emitBuf.String())
	if len(p.hashes) == 0 || p.inHash {
		return
	}
	p.inHash = true
	defer func() { p.inHash = false }()
	p.emitHashes(false)
}

// emitHashes asserts that the digests that occur in formulas are an injective function of their
// data. A digest that occurs in none is left out: any model extends to it.
func (p *Path) emitHashes(all bool) {
	for changed := true; changed; {
		changed = false
		for i, h := range p.hashes {
			if h.live || h.out[0] == nil {
				continue
			}
			used := all
			for _, o := range h.out {
				if o.emitVer == 1 {
					used = true
				}
			}
			if !used {
				continue
			}
			h.live, changed = true, true
			for j, g := range p.hashes {
				if i == j || !(g.live || g.out[0] == nil) {
					continue
				}
				p.emitPair(g, h)
			}
		}
	}
}

// emitPair asserts that two digests are equal exactly when their data is.
func (p *Path) emitPair(g, h *hashApp) {
	p.ts.hashOf = nil
	out := p.ts.EqBytes(h.res, g.res)
	p.ts.hashOf = p.hashOf
	var c *Term
	if len(g.in) != len(h.in) {
		c = p.ts.Not(out)
	} else {
		c = p.ts.Eq(p.ts.EqBytes(g.in, h.in), out)
	}
	if c.op == OpConst {
		if c.val == 0 {
			p.sv.write("(assert false)\n")
		}
		return
	}
	p.emitDefs(c)
	p.sv.write("(assert " + c.ref() + ")\n")
}

// fixHashes gives the digests left out of the formulas a value in the model m.
func (p *Path) fixHashes(m []uint64) ([]uint64, bool) {
	left := false
	for _, h := range p.hashes {
		if h.out[0] != nil && !h.live {
			left = true
		}
	}
	if !left {
		return m, true
	}
	old := p.curModel()
	defer p.setModel(old)
	p.setModel(m)
	for _, h := range p.hashes {
		if h.out[0] == nil || h.live {
			continue
		}
		d := p.realDigest(h.in)
		for _, g := range p.hashes {
			if g.live && p.sameData(g, h) {
				for i := range d {
					d[i] = g.out[i].val
				}
				break
			}
		}
		for i := range d {
			h.out[i].val = d[i]
		}
		p.ver++
	}
	ok := true
	for i, h := range p.hashes {
		if h.out[0] == nil {
			continue
		}
		for j, g := range p.hashes {
			if g.out[0] != nil && j >= i {
				continue
			}
			out := true
			for k := range h.res {
				if p.eval(h.res[k]) != p.eval(g.res[k]) {
					out = false
					break
				}
			}
			if out != p.sameData(g, h) {
				ok = false
			}
		}
	}
	return p.curModel(), ok
}

func (p *Path) sameData(g, h *hashApp) bool {
	if len(g.in) != len(h.in) {
		return false
	}
	for i := range g.in {
		if p.eval(g.in[i]) != p.eval(h.in[i]) {
			return false
		}
	}
	return true
}

// knownTruth returns whether c is already decided on this path.
func (p *Path) knownTruth(c *Term) (bool, bool) {
	if c.op == OpConst {
		return c.val != 0, true
	}
	if c.op == OpNot {
		v, ok := p.knownTruth(c.a)
		return !v, ok
	}
	if v, ok := p.known[c]; ok {
		return v, true
	}
	switch c.op {
	case OpAnd:
		a, ok1 := p.knownTruth(c.a)
		b, ok2 := p.knownTruth(c.b)
		if ok1 && !a || ok2 && !b {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OpOr:
		a, ok1 := p.knownTruth(c.a)
		b, ok2 := p.knownTruth(c.b)
		if ok1 && a || ok2 && b {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	}
	return false, false
}

// query checks pc && c; on sat it returns the model values of all variables.
func (p *Path) query(c *Term) (verdict, []uint64) {
	v, model := p.query1(c)
	if v == vSat {
		m, ok := p.fixHashes(model)
		if !ok {
			// no value for the digests that were left out: decide with all of them
			p.inHash = true
			p.emitHashes(true)
			p.inHash = false
			v, model = p.query1(c)
			m = model
		}
		model = m
	}
	if v == vSat {
		model = p.repair(model, c)
	}
	return v, model
}

func (p *Path) query1(c *Term) (verdict, []uint64) {
	p.emitDefs(c)
	p.sv.write("(push 1)\n(assert " + c.ref() + ")\n")
	v := p.sv.check()
	var model []uint64
	if v == vSat {
		var vars []*Term
		for _, x := range p.ts.vars {
			if x.emitVer == 1 {
				vars = append(vars, x)
			}
		}
		m, err := p.sv.values(vars)
		if err != nil {
			p.sv.Unknown++
			v = vUnknown
		} else {
			model = make([]uint64, len(p.ts.vars))
			for i, x := range p.ts.vars {
				if val, ok := m[x]; ok {
					model[i] = val
				} else {
					model[i] = x.val
				}
			}
		}
	}
	if !p.sv.dead {
		p.sv.write("(pop 1)\n")
	}
	return v, model
}

func (p *Path) setModel(m []uint64) {
	for i, x := range p.ts.vars {
		if i < len(m) {
			x.val = m[i]
		}
	}
	p.ver++
}

func (p *Path) curModel() []uint64 {
	m := make([]uint64, len(p.ts.vars))
	for i, x := range p.ts.vars {
		m[i] = x.val
	}
	return m
}

// repair replaces the solver's digest values by the real digests of the model's inputs when every constraint still holds.
func (p *Path) repair(m []uint64, extra *Term) []uint64 {
	sym := false
	for _, h := range p.hashes {
		if h.out[0] != nil {
			sym = true
		}
	}
	if !sym {
		return m
	}
	old := p.curModel()
	p.setModel(m)
	for _, h := range p.hashes {
		if h.out[0] == nil {
			continue
		}
		for i, w := range p.realDigest(h.in) {
			h.out[i].val = w
		}
		p.ver++
	}
	ok := p.eval(extra) != 0
	for _, c := range p.pc {
		if !ok {
			break
		}
		ok = p.eval(c) != 0
	}
	var res []uint64
	if ok {
		res = p.curModel()
	} else {
		res = m
	}
	p.setModel(old)
	return res
}

func (p *Path) realDigest(in []*Term) [8]uint64 {
	data := make([]byte, len(in))
	for i, t := range in {
		data[i] = byte(p.eval(t))
	}
	s := sha512.Sum512(data)
	var w [8]uint64
	for i := 0; i < 8; i++ {
		for j := 0; j < 8; j++ {
			w[i] = w[i]<<8 | uint64(s[i*8+j])
		}
	}
	return w
}

// branch decides a boolean condition, forking when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if v, ok := p.knownTruth(c); ok {
		return v
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		p.assumeDecided(c, d.taken)
		return d.taken
	}
	v := p.eval(c) != 0
	other := c
	if v {
		other = p.ts.Not(c)
	}
	switch r, m := p.query(other); r {
	case vSat:
		p.push(Decision{taken: !v}, m)
	case vUnknown:
		p.unknowns++
		p.checkDead()
	case vUnsat:
		// implied by the path condition: recorded, so that replayed prefixes stay aligned
		p.decs = append(p.decs, Decision{taken: v})
		p.learn(c, v)
		return v
	}
	p.decs = append(p.decs, Decision{taken: v})
	p.assumeDecided(c, v)
	return v
}

func (p *Path) checkDead() {
	if p.sv.dead {
		p.abort(abUnknown, "solver process ended")
	}
}

func (p *Path) push(d Decision, m []uint64) {
	pre := make([]Decision, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	p.items = append(p.items, Item{prefix: pre, model: m})
}

func (p *Path) assumeDecided(c *Term, v bool) {
	if !v {
		c = p.ts.Not(c)
	}
	p.addPC(c)
}

// concretize forks over every feasible value of t.
func (p *Path) concretize(t *Term, what string) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if v, ok := p.concVal[t]; ok {
		return v
	}
	v := p.concretize1(t, what)
	p.concVal[t] = v
	return v
}

func (p *Path) concretize1(t *Term, what string) uint64 {
	for n := 0; ; n++ {
		if n > 4096 {
			p.lost = append(p.lost, "more than 4096 values for "+what)
			p.abort(abLimit, "too many values for %s", what)
		}
		if n == 6 {
			if v, ok := p.bisect(t); ok {
				return v
			}
		}
		if p.pos < len(p.prefix) {
			d := p.prefix[p.pos]
			p.pos++
			p.decs = append(p.decs, d)
			if !d.conc {
				p.abort(abUnsupported, "engine: prefix mismatch at %s", what)
			}
			e := p.ts.Eq(t, K(t.w, d.val))
			p.assumeDecided(e, d.taken)
			if d.taken {
				return d.val
			}
			continue
		}
		v := p.eval(t)
		e := p.ts.Eq(t, K(t.w, v))
		switch r, m := p.query(p.ts.Not(e)); r {
		case vSat:
			p.push(Decision{conc: true, val: v, taken: false}, m)
		case vUnknown:
			p.unknowns++
			p.checkDead()
		case vUnsat:
			p.decs = append(p.decs, Decision{conc: true, val: v, taken: true})
			p.learn(e, true)
			return v
		}
		p.decs = append(p.decs, Decision{conc: true, val: v, taken: true})
		p.assumeDecided(e, true)
		return v
	}
}

// bisect decides a term with many but small values bit by bit.
func (p *Path) bisect(t *Term) (uint64, bool) {
	var width uint8
	for _, w := range []uint8{8, 12, 16} {
		if w >= t.w || p.branch(p.ts.Ult(t, K(t.w, 1<<w))) {
			width = w
			break
		}
	}
	if width == 0 {
		return 0, false
	}
	if width > t.w {
		width = t.w
	}
	v := uint64(0)
	for b := int(width) - 1; b >= 0; b-- {
		if p.branch(p.ts.Eq(p.ts.Extract(t, uint8(b), uint8(b)), K(1, 1))) {
			v |= 1 << uint(b)
		}
	}
	return v, true
}

// assume restricts the path to c.
func (p *Path) assume(c *Term) {
	if v, ok := p.knownTruth(c); ok {
		if !v {
			p.abort(abInfeasible, "assumption is false")
		}
		return
	}
	if p.eval(c) == 0 {
		r, m := p.query(c)
		switch r {
		case vUnsat:
			p.abort(abInfeasible, "assumption is unsatisfiable")
		case vUnknown:
			p.unknowns++
			p.abort(abUnknown, "assumption undecided")
		}
		p.setModel(m)
	}
	p.addPC(c)
}

// assert decides whether c holds for every value on this path.
func (p *Path) assert(c *Term, msg string) {
	if v, ok := p.knownTruth(c); ok {
		p.assertsC++
		if !v {
			p.violate("assert", msg, p.curModel(), false, nil)
			p.abort(abStop, "assertion is false on the whole path")
		}
		return
	}
	if p.pos < len(p.prefix) {
		// decided by the path this one was forked from
		p.addPC(c)
		return
	}
	if p.eval(c) == 0 {
		p.violate("assert", msg, p.curModel(), true, p.ts.Not(c))
		r, m := p.query(c)
		if r != vSat {
			if r == vUnknown {
				p.unknowns++
			}
			p.abort(abStop, "assertion is false")
		}
		p.setModel(m)
		p.addPC(c)
		return
	}
	p.asserts++
	switch r, m := p.query(p.ts.Not(c)); r {
	case vSat:
		p.violate("assert", msg, m, true, p.ts.Not(c))
	case vUnknown:
		p.unknowns++
		p.lost = append(p.lost, "undecided assertion: "+msg)
		p.checkDead()
	case vUnsat:
		p.learn(c, true)
		return
	}
	p.addPC(c)
}

func (p *Path) violate(kind, msg string, model []uint64, solver bool, extra *Term) {
	real := false
	if p.in.enough == nil || !p.in.enough(kind+"|"+msg) {
		model, real = p.realize(model, extra)
	}
	old := p.curModel()
	p.setModel(model)
	p.viol = append(p.viol, violation{kind: kind, msg: msg, inputs: p.replayInputs(), solver: solver, real: real})
	p.setModel(old)
}

// realDigests tells whether the model m gives every digest its real value.
func (p *Path) realDigests(m []uint64) bool {
	old := p.curModel()
	p.setModel(m)
	ok := true
	for _, h := range p.hashes {
		if h.out[0] == nil {
			continue
		}
		d := p.realDigest(h.in)
		for i := range d {
			if h.out[i].val != d[i] {
				ok = false
			}
		}
		if !ok {
			break
		}
	}
	p.setModel(old)
	return ok
}

// realize looks for a model of the path condition and extra in which every digest has its real
// value: the digests are fixed one after another to the real digest of the data in the model.
func (p *Path) realize(m []uint64, extra *Term) ([]uint64, bool) {
	if p.realDigests(m) {
		return m, true
	}
	if p.sv.dead {
		return m, false
	}
	old := p.curModel()
	defer func() { p.setModel(old) }()
	depth := 0
	push := func() { p.sv.write("(push 1)\n"); depth++ }
	pop := func() { p.sv.write("(pop 1)\n"); depth-- }
	defer func() {
		for depth > 0 && !p.sv.dead {
			pop()
		}
	}()
	solve := func() ([]uint64, bool) {
		if p.sv.dead || p.sv.check() != vSat {
			return nil, false
		}
		var vars []*Term
		for _, x := range p.ts.vars {
			if x.emitVer == 1 {
				vars = append(vars, x)
			}
		}
		vals, err := p.sv.values(vars)
		if err != nil {
			return nil, false
		}
		r := make([]uint64, len(p.ts.vars))
		for i, x := range p.ts.vars {
			if v, ok := vals[x]; ok {
				r[i] = v
			} else {
				r[i] = x.val
			}
		}
		return r, true
	}
	// definitions made below must not be lost with the scopes: emit them first
	var all []*Term
	if extra != nil {
		all = append(all, extra)
	}
	for _, h := range p.hashes {
		if h.out[0] != nil {
			all = append(all, h.in...)
			for _, o := range h.out {
				all = append(all, o)
			}
		}
	}
	for _, t := range all {
		p.emitDefs(t)
	}
	push()
	if extra != nil {
		p.sv.write("(assert " + extra.ref() + ")\n")
	}
	base := depth
	cur, ok := p.realizeFrom(m, solve, push, pop)
	if p.sv.dead {
		return m, false
	}
	if ok && p.realDigests(cur) {
		return cur, true
	}
	for depth > base {
		pop()
	}
	data := p.hashData()
	r, ok, rounds := p.searchDigests(m, extra, data)
	if ok {
		return r, true
	}
	// other data, with its real digests: many alternatives in one query
	rng := rand.New(rand.NewSource(1))
	for round := 0; len(data) > 0 && round < rounds && atomic.LoadInt64(p.in.realizeLeft) > 0; round++ {
		t0 := time.Now()
		push()
		p.sv.write("(assert (or false")
		for k := 0; k < 64; k++ {
			p.setModel(m)
			if k%2 == 0 {
				for _, t := range data {
					t.val = rng.Uint64() & mask(max8(t.w, 1))
				}
			} else {
				for n := rng.Intn(3); n >= 0; n-- {
					t := data[rng.Intn(len(data))]
					t.val = rng.Uint64() & mask(max8(t.w, 1))
				}
			}
			p.ver++
			p.sv.write(" (and true")
			for _, t := range data {
				p.sv.write(" (= " + t.ref() + " " + smtConst(t.w, t.val) + ")")
			}
			for _, h := range p.hashes {
				if h.out[0] == nil {
					continue
				}
				for i, w := range p.realDigest(h.in) {
					h.out[i].val = w
					p.sv.write(" (= " + h.out[i].ref() + " " + smtConst(64, w) + ")")
				}
				p.ver++
			}
			p.sv.write(")")
		}
		p.sv.write("))\n")
		r, ok := solve()
		if p.sv.dead {
			return m, false
		}
		pop()
		atomic.AddInt64(p.in.realizeLeft, -int64(time.Since(t0)))
		if ok && p.realDigests(r) {
			return r, true
		}
	}
	return m, false
}

// searchDigests looks for a model with real digests by evaluating the constraints on models that
// differ from m in the data that is hashed and, sometimes, in the bytes compared to digests. It
// also returns how much of a search with the solver is worthwhile when there is none.
func (p *Path) searchDigests(m []uint64, extra *Term, data []*Term) ([]uint64, bool, int) {
	if len(data) == 0 {
		return nil, false, 0
	}
	var apps []*hashApp
	other := map[*Term]bool{}
	for _, x := range p.ts.vars {
		if x.w == 8 {
			other[x] = true
		}
	}
	for _, h := range p.hashes {
		if h.out[0] != nil {
			apps = append(apps, h)
		}
	}
	for _, t := range data {
		delete(other, t)
	}
	var free []*Term
	for _, x := range p.ts.vars {
		if other[x] {
			free = append(free, x)
		}
	}
	bits, tries, few := 0, 400000, 20000
	for _, t := range data {
		bits += int(max8(t.w, 1))
	}
	if bits <= 12 {
		tries = 4 << uint(bits)
	}
	rng := rand.New(rand.NewSource(2))
	t0 := time.Now()
	defer func() { atomic.AddInt64(p.in.realizeLeft, -int64(time.Since(t0))) }()
	least := len(p.pc) + 1
	for k := 0; k < tries; k++ {
		if k%256 == 0 && (time.Since(t0) > 3*time.Second || atomic.LoadInt64(p.in.realizeLeft) <= 0) {
			break
		}
		p.setModel(m)
		if k%4 != 0 {
			for _, t := range data {
				t.val = rng.Uint64() & mask(max8(t.w, 1))
			}
		} else {
			for n := rng.Intn(3); n >= 0; n-- {
				t := data[rng.Intn(len(data))]
				t.val = rng.Uint64() & mask(max8(t.w, 1))
			}
		}
		p.ver++
		for _, h := range apps {
			for i, w := range p.realDigest(h.in) {
				h.out[i].val = w
			}
			p.ver++
		}
		if k%8 != 0 {
			h := apps[rng.Intn(len(apps))]
			b := h.out[0].val >> uint(56-8*rng.Intn(2)) & 0xff
			for _, t := range free {
				t.val = b
			}
			p.ver++
		}
		bad := 0
		if extra != nil && p.eval(extra) == 0 {
			bad++
		}
		for _, c := range p.pc {
			if bad > least {
				break
			}
			if p.eval(c) == 0 {
				bad++
			}
		}
		if bad == 0 {
			if r := p.curModel(); p.realDigests(r) {
				return r, true, 0
			}
		} else if bad < least {
			least = bad
		}
		if k == few && least > 1 {
			// hopeless
			return nil, false, 1
		}
	}
	return nil, false, 8
}

// hashData lists the variables of the data that is hashed.
func (p *Path) hashData() []*Term {
	var res []*Term
	seen := map[*Term]bool{}
	for _, h := range p.hashes {
		for _, o := range h.out {
			if o != nil {
				seen[o] = true
			}
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpVar && t.emitVer == 1 {
			res = append(res, t)
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, h := range p.hashes {
		for _, t := range h.in {
			walk(t)
		}
	}
	return res
}

// realizeFrom fixes the digests one after another to the real digest of the data in the model m.
func (p *Path) realizeFrom(m []uint64, solve func() ([]uint64, bool), push, pop func()) ([]uint64, bool) {
	cur := append([]uint64{}, m...)
	for _, h := range p.hashes {
		if h.out[0] == nil {
			continue
		}
		done := false
		for try := 0; try < 6 && !done; try++ {
			p.setModel(cur)
			d := p.realDigest(h.in)
			var sb strings.Builder
			sb.WriteString("(and true")
			for _, t := range h.in {
				if t.op != OpConst {
					fmt.Fprintf(&sb, " (= %s #x%02x)", t.ref(), p.eval(t))
				}
			}
			sb.WriteString(")")
			in := sb.String()
			push()
			p.sv.write("(assert " + in + ")\n")
			for i := range d {
				fmt.Fprintf(&p.sv.buf, "(assert (= %s #x%016x))\n", h.out[i].ref(), d[i])
			}
			if r, ok := solve(); ok {
				cur, done = r, true
				break
			}
			if p.sv.dead {
				return m, false
			}
			pop()
			p.sv.write("(assert (not " + in + "))\n")
			r, ok := solve()
			if !ok {
				return m, false
			}
			cur = r
		}
		if !done {
			return m, false
		}
	}
	return cur, true
}

func (p *Path) replayInputs() []replayInput {
	res := make([]replayInput, 0, len(p.inputs))
	for _, in := range p.inputs {
		res = append(res, replayInput{Name: in.name, Kind: in.kind, Val: p.eval(in.t)})
	}
	return res
}

// hashOf returns the digest whose bytes b are, if any.
func (p *Path) hashOf(b []*Term) *hashApp {
	for _, h := range p.hashes {
		ok := true
		for i := range b {
			if b[i] != h.res[i] && !same(b[i], h.res[i]) {
				ok = false
				break
			}
		}
		if ok {
			return h
		}
	}
	return nil
}

// sha512 models the digest of in: exact for concrete data, otherwise an arbitrary
// 512-bit value that is a function of the data and never collides.
func (p *Path) sha512(in []*Term) []*Term {
	conc := true
	for _, t := range in {
		if t.op != OpConst {
			conc = false
			break
		}
	}
	for _, h := range p.hashes {
		if len(h.in) == len(in) {
			eq := true
			for i := range in {
				if !same(in[i], h.in[i]) {
					eq = false
					break
				}
			}
			if eq {
				return h.res
			}
		}
	}
	h := &hashApp{in: append([]*Term(nil), in...)}
	h.res = make([]*Term, 64)
	if conc {
		d := p.realDigest(in)
		for i := 0; i < 64; i++ {
			h.res[i] = K(8, d[i/8]>>(56-8*(i%8)))
		}
	} else {
		real := p.realDigest(in)
		for i := range h.out {
			idx := len(p.ts.vars)
			h.out[i] = p.ts.newVar("sha", 64)
			if idx < len(p.seed) {
				h.out[i].val = p.seed[idx]
			} else {
				h.out[i].val = real[i]
			}
		}
		for i := 0; i < 64; i++ {
			lo := uint8(56 - 8*(i%8))
			h.res[i] = p.ts.Extract(h.out[i/8], lo+7, lo)
		}
	}
	if !conc {
		// the model at hand gives equal data equal digests
		for _, g := range p.hashes {
			if p.sameData(g, h) {
				for i := range h.out {
					if g.out[0] != nil {
						h.out[i].val = g.out[i].val
					}
				}
				break
			}
		}
		p.ver++
	}
	p.hashes = append(p.hashes, h)
	if conc {
		p.inHash = true
		again := false
		for _, g := range p.hashes[:len(p.hashes)-1] {
			if g.live {
				p.emitPair(g, h)
				again = again || p.sameData(g, h)
			}
		}
		p.emitHashes(false)
		p.inHash = false
		if again && !p.realDigests(p.curModel()) {
			// the model at hand gives this data another digest
			switch r, m := p.query(tTrue); r {
			case vSat:
				p.setModel(m)
			case vUnsat:
				p.abort(abInfeasible, "digest")
			default:
				p.unknowns++
				p.abort(abUnknown, "digest")
			}
		}
	}
	return h.res
}
