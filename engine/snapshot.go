package main

import (
	"sort"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// A harness may begin with sym.Once(f), where f builds objects that depend on no input. f is
// executed in the first path; its memory is kept as a template, and every later path receives a
// copy of its own of everything reachable from the result and from the globals, with all aliasing
// preserved. Nothing is shared between paths.

type snapshot struct {
	mu      sync.Mutex
	done    bool
	ok      bool
	segs    [][]value // templates: values with references instead of pointers
	maps    []smapTmpl
	clos    []closTmpl
	root    value
	globals map[*ssa.Global]value
	inited  map[*ssa.Package]bool
	touched map[*ssa.Function]bool
}

type (
	refPtr    struct{ seg, off int }
	refSlice  struct{ seg, off, n, c int }
	refStruct refSlice
	refArray  refSlice
	refData   refSlice
	refMap    struct{ i int }
	refClos   struct{ i int }
	refTuple  struct{ list []value }
	refIface  struct {
		v iface // v.v is a template
	}
	smapTmpl struct {
		src        *smap
		keys, vals []value
	}
	closTmpl struct {
		src *closure
		env []value
	}
)

type snapSeg struct {
	lo, hi uintptr
	vals   []value
}

type snapBuilder struct {
	raw  []snapSeg
	seen map[interface{}]bool
	maps map[*smap]int
	clos map[*closure]int
	mapL []*smap
	cloL []*closure
	bad  bool
	todo []value
}

const valueSize = unsafe.Sizeof(value(nil))

func addrOf(p *value) uintptr { return uintptr(unsafe.Pointer(p)) }

type segKey struct {
	lo uintptr
	n  int
}

func (b *snapBuilder) block(s []value) {
	s = s[:cap(s)]
	if len(s) == 0 {
		return
	}
	k := segKey{addrOf(&s[0]), len(s)}
	if b.seen[k] {
		return
	}
	b.seen[k] = true
	b.raw = append(b.raw, snapSeg{k.lo, k.lo + uintptr(len(s))*valueSize, s})
	b.todo = append(b.todo, s...)
}

func (b *snapBuilder) scan(v value) {
	switch v := v.(type) {
	case nil, string, float64, float32, complex128, *opaqueStr, *ssa.Function, *ssa.Builtin:
	case *Term:
		if v != nil && v.op != OpConst {
			b.bad = true
		}
	case *symStr:
		for _, t := range v.b {
			if t.op != OpConst {
				b.bad = true
			}
		}
	case structure:
		b.block(v)
	case array:
		b.block(v)
	case []value:
		b.block(v)
	case sliceData:
		b.block(v.s)
	case tuple:
		b.todo = append(b.todo, v...)
	case *value:
		if v != nil {
			b.block(unsafe.Slice(v, 1))
		}
	case iface:
		b.todo = append(b.todo, v.v)
	case *smap:
		if v == nil {
			return
		}
		if _, ok := b.maps[v]; !ok {
			b.maps[v] = len(b.mapL)
			b.mapL = append(b.mapL, v)
			b.todo = append(b.todo, v.keys...)
			b.todo = append(b.todo, v.vals...)
		}
	case *closure:
		if v == nil {
			return
		}
		if _, ok := b.clos[v]; !ok {
			b.clos[v] = len(b.cloL)
			b.cloL = append(b.cloL, v)
			b.todo = append(b.todo, v.env...)
		}
	default:
		b.bad = true
	}
}

func (b *snapBuilder) find(p uintptr) (int, int) {
	i := sort.Search(len(b.raw), func(i int) bool { return b.raw[i].hi > p })
	if i == len(b.raw) || p < b.raw[i].lo {
		b.bad = true
		return 0, 0
	}
	return i, int((p - b.raw[i].lo) / valueSize)
}

func (b *snapBuilder) slice(s []value) refSlice {
	f := s[:cap(s)]
	if len(f) == 0 {
		return refSlice{seg: -1}
	}
	i, off := b.find(addrOf(&f[0]))
	return refSlice{i, off, len(s), cap(s)}
}

func (b *snapBuilder) tmpl(v value) value {
	switch v := v.(type) {
	case structure:
		return refStruct(b.slice(v))
	case array:
		return refArray(b.slice(v))
	case []value:
		if v == nil {
			return v
		}
		return b.slice(v)
	case sliceData:
		return refData(b.slice(v.s))
	case tuple:
		return refTuple{b.list(v)}
	case *value:
		if v == nil {
			return v
		}
		i, off := b.find(addrOf(v))
		return refPtr{i, off}
	case iface:
		switch v.v.(type) {
		case nil, string, float64, *Term:
			return v
		}
		return refIface{iface{v.t, b.tmpl(v.v)}}
	case *smap:
		if v == nil {
			return v
		}
		return refMap{b.maps[v]}
	case *closure:
		if v == nil {
			return v
		}
		return refClos{b.clos[v]}
	}
	return v
}

func (b *snapBuilder) list(l []value) []value {
	out := make([]value, len(l))
	for i, x := range l {
		out[i] = b.tmpl(x)
	}
	return out
}

// take makes the template; the interpreter must not use the memory afterwards.
func (s *snapshot) take(in *Interp, root value) {
	b := &snapBuilder{seen: map[interface{}]bool{}, maps: map[*smap]int{}, clos: map[*closure]int{}}
	b.todo = append(b.todo, root)
	for _, a := range in.globals {
		b.todo = append(b.todo, a)
	}
	for len(b.todo) > 0 && !b.bad {
		v := b.todo[len(b.todo)-1]
		b.todo = b.todo[:len(b.todo)-1]
		b.scan(v)
	}
	if b.bad {
		return
	}
	// ranges that overlap belong to one allocation
	sort.Slice(b.raw, func(i, j int) bool {
		if b.raw[i].lo != b.raw[j].lo {
			return b.raw[i].lo < b.raw[j].lo
		}
		return b.raw[i].hi > b.raw[j].hi
	})
	var merged []snapSeg
	for _, r := range b.raw {
		if n := len(merged); n > 0 && r.lo < merged[n-1].hi {
			m := &merged[n-1]
			if r.hi > m.hi {
				m.hi = r.hi
				m.vals = unsafe.Slice(&m.vals[0], int((m.hi-m.lo)/valueSize))
			}
			continue
		}
		merged = append(merged, r)
	}
	b.raw = merged
	for _, r := range b.raw {
		s.segs = append(s.segs, b.list(r.vals))
	}
	for _, m := range b.mapL {
		s.maps = append(s.maps, smapTmpl{m, b.list(m.keys), b.list(m.vals)})
	}
	for _, c := range b.cloL {
		s.clos = append(s.clos, closTmpl{c, b.list(c.env)})
	}
	s.root = b.tmpl(root)
	s.globals = map[*ssa.Global]value{}
	for g, a := range in.globals {
		s.globals[g] = b.tmpl(a)
	}
	s.inited = map[*ssa.Package]bool{}
	for p := range in.inited {
		s.inited[p] = true
	}
	s.touched = map[*ssa.Function]bool{}
	for f := range in.touched {
		s.touched[f] = true
	}
	s.ok = !b.bad
}

type snapCopy struct {
	segs [][]value
	maps []*smap
	clos []*closure
}

func (c *snapCopy) slice(r refSlice) []value {
	if r.seg < 0 {
		return []value{}
	}
	return c.segs[r.seg][r.off : r.off+r.n : r.off+r.c]
}

func (c *snapCopy) copy(v value) value {
	switch v := v.(type) {
	case refPtr:
		return &c.segs[v.seg][v.off]
	case refSlice:
		return c.slice(v)
	case refStruct:
		return structure(c.slice(refSlice(v)))
	case refArray:
		return array(c.slice(refSlice(v)))
	case refData:
		return sliceData{c.slice(refSlice(v))}
	case refTuple:
		return tuple(c.list(v.list))
	case refMap:
		return c.maps[v.i]
	case refClos:
		return c.clos[v.i]
	case refIface:
		return iface{v.v.t, c.copy(v.v.v)}
	}
	return v
}

func (c *snapCopy) list(l []value) []value {
	out := make([]value, len(l))
	for i, x := range l {
		out[i] = c.copy(x)
	}
	return out
}

// restore gives the interpreter a copy of its own and returns the result of the function.
func (s *snapshot) restore(in *Interp) value {
	c := &snapCopy{segs: make([][]value, len(s.segs)), maps: make([]*smap, len(s.maps)), clos: make([]*closure, len(s.clos))}
	for i, t := range s.segs {
		c.segs[i] = make([]value, len(t))
	}
	for i := range s.maps {
		c.maps[i] = &smap{}
	}
	for i, t := range s.clos {
		c.clos[i] = &closure{fn: t.src.fn}
	}
	for i, t := range s.segs {
		dst := c.segs[i]
		for j, x := range t {
			dst[j] = c.copy(x)
		}
	}
	for i, t := range s.maps {
		m := c.maps[i]
		m.keys, m.vals = c.list(t.keys), c.list(t.vals)
		m.alive = append([]bool{}, t.src.alive...)
		m.idx = make(map[string]int, len(t.src.idx))
		for j, k := range m.keys {
			// keys that hold pointers have other names in the copy
			var sb strings.Builder
			if m.alive[j] && keyString(k, &sb) {
				m.idx[sb.String()] = j
			}
		}
		m.nsym, m.n = t.src.nsym, t.src.n
	}
	for i, t := range s.clos {
		c.clos[i].env = c.list(t.env)
	}
	in.globals = make(map[*ssa.Global]*value, len(s.globals))
	for g, a := range s.globals {
		in.globals[g] = c.copy(a).(*value)
	}
	in.inited = make(map[*ssa.Package]bool, len(s.inited))
	for p := range s.inited {
		in.inited[p] = true
	}
	for f := range s.touched {
		in.touched[f] = true
	}
	return c.copy(s.root)
}

// once executes a function without parameters or returns a copy of what it gave in the first path.
func (in *Interp) once(f value) value {
	run := func() value { return in.callValue(f, nil) }
	fn, ok := f.(*ssa.Function)
	if cl, is := f.(*closure); is && len(cl.env) == 0 {
		fn, ok = cl.fn, true
	}
	if !ok || in.snaps == nil || len(in.p.decs) > 0 || len(in.p.ts.vars) > 0 || in.steps > 200 {
		return run()
	}
	in.snaps.mu.Lock()
	s := in.snaps.m[fn]
	if s == nil {
		s = &snapshot{}
		in.snaps.m[fn] = s
	}
	in.snaps.mu.Unlock()
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.done {
		s.done = true
		r := run()
		if len(in.p.decs) > 0 || len(in.p.ts.vars) > 0 || len(in.p.hashes) > 0 || len(in.p.viol) > 0 || len(in.p.reachL) > 0 || len(in.p.obs) > 0 || len(in.p.items) > 0 {
			return r
		}
		s.take(in, r)
		if !s.ok {
			return r
		}
		return s.restore(in)
	}
	if !s.ok {
		s.mu.Unlock()
		defer s.mu.Lock()
		return run()
	}
	s.mu.Unlock()
	defer s.mu.Lock()
	return s.restore(in)
}

type snapTable struct {
	mu sync.Mutex
	m  map[*ssa.Function]*snapshot
}
