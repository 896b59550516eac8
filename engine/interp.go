package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded code, shared by all workers.
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	cfns    sync.Map // *ssa.Function -> *cfn
	buildMu sync.Mutex
	methMu  sync.Mutex
	meths   map[methKey]*ssa.Function
	redir   map[string]*ssa.Function
	base    string // import path prefix of the harness packages
}

type methKey struct {
	t    types.Type
	name string
}

type opd struct {
	kind byte // 'r' register, 'c' constant, 'g' global, 'n' none
	idx  int
	v    value
	g    *ssa.Global
}

type cins struct {
	in  ssa.Instruction
	dst int
	ops []opd
	bi  basicInfo
	bi2 basicInfo
}

type cfn struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]cins
	intr   intrinsic
	target *ssa.Function
	name   string
	isRepo bool
}

type intrinsic func(in *Interp, args []value) value

// Interp executes one path.
type Interp struct {
	P       *Program
	p       *Path
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	steps   int
	maxStep int
	depth   int
	maxDep  int
	touched map[*ssa.Function]bool
	local   map[*ssa.Function]*cfn
	recov   []recEntry

	cos   []*coState
	curCo int

	snaps       *snapTable
	enough      func(key string) bool // whether there are enough counterexamples with real digests
	realizeLeft *int64                // time left for the search of real digests, of the whole run
}

type deferred struct {
	fn   value
	args []value
	ins  *ssa.Defer
}

type frame struct {
	fn        *cfn
	regs      []value
	env       []value
	defers    []deferred
	result    value
	panicking bool
	panicVal  interface{}
	recovered bool
}

type targetPanic struct{ v value }

func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{in.mkError("runtime error: " + msg)})
}

// mkError builds an error interface value.
func (in *Interp) mkError(msg value) value {
	f := in.P.fn("errors", "New")
	return in.call(f, []value{msg}, nil)
}

func (P *Program) pkg(path string) *ssa.Package {
	return P.pkgs[path]
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	p := P.pkgs[pkg]
	if p == nil {
		panic(pathAbort{abUnsupported, "package not loaded: " + pkg})
	}
	P.build(p)
	f := p.Func(name)
	if f == nil {
		panic(pathAbort{abUnsupported, "no function " + pkg + "." + name})
	}
	return f
}

func (P *Program) build(p *ssa.Package) {
	p.Build()
}

func (P *Program) compile(fn *ssa.Function) *cfn {
	if c, ok := P.cfns.Load(fn); ok {
		return c.(*cfn)
	}
	c := P.compile1(fn)
	P.cfns.Store(fn, c)
	return c
}

func (P *Program) compile1(fn *ssa.Function) *cfn {
	c := &cfn{fn: fn, name: fn.String()}
	if fn.Pkg != nil {
		P.build(fn.Pkg)
		c.isRepo = isRepoPkg(fn.Pkg.Pkg.Path())
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		P.build(fn.Origin().Pkg)
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		// wrappers and thunks
		if sp := P.prog.Package(o.Pkg()); sp != nil {
			P.build(sp)
		}
	}
	if f, ok := intrinsics[c.name]; ok {
		c.intr = f
		return c
	}
	if t, ok := P.redir[c.name]; ok {
		c.target = t
		return c
	}
	if len(c.name) > len(P.base) && c.name[:len(P.base)] == P.base {
		if f, ok := intrinsics["$"+c.name[len(P.base):]]; ok {
			c.intr = f
			return c
		}
	}
	if f := nativeIntrinsic(c.name, fn); f != nil {
		c.intr = f
		if fn.Blocks == nil {
			return c
		}
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, f := range fn.FreeVars {
		regs[f] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	c.nregs = n
	c.blocks = make([][]cins, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		list := make([]cins, 0, len(b.Instrs))
		for _, i := range b.Instrs {
			ci := cins{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			if d, ok := i.(*ssa.DebugRef); ok {
				_ = d
				continue
			}
			for _, op := range i.Operands(nil) {
				ci.ops = append(ci.ops, mkOpd(*op, regs))
			}
			switch x := i.(type) {
			case *ssa.BinOp:
				ci.bi = basicOf(x.X.Type())
				ci.bi2 = basicOf(x.Y.Type())
			case *ssa.UnOp:
				ci.bi = basicOf(x.Type())
			case *ssa.Convert:
				ci.bi = basicOf(x.X.Type())
				ci.bi2 = basicOf(x.Type())
			case *ssa.Index:
				ci.bi = basicOf(x.Index.Type())
			case *ssa.IndexAddr:
				ci.bi = basicOf(x.Index.Type())
			}
			list = append(list, ci)
		}
		c.blocks[bi] = list
	}
	return c
}

func mkOpd(v ssa.Value, regs map[ssa.Value]int) opd {
	switch v := v.(type) {
	case nil:
		return opd{kind: 'n'}
	case *ssa.Const:
		return opd{kind: 'c', v: constVal(v)}
	case *ssa.Global:
		return opd{kind: 'g', g: v}
	case *ssa.Function, *ssa.Builtin:
		return opd{kind: 'c', v: v}
	}
	i, ok := regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s", v))
	}
	return opd{kind: 'r', idx: i}
}

func constVal(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		bi := basicOf(tp)
		switch bi.kind {
		case 'b':
			return B(constant.BoolVal(c.Value))
		case 'i':
			if bi.signed {
				return K(bi.w, uint64(c.Int64()))
			}
			return K(bi.w, c.Uint64())
		case 'f':
			return c.Float64()
		case 'c':
			return c.Complex128()
		case 's':
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case 'u':
			return (*value)(nil)
		}
	}
	return badConst{c.String()}
}

type badConst struct{ s string }

func (fr *frame) get(in *Interp, o *opd) value {
	switch o.kind {
	case 'r':
		return fr.regs[o.idx]
	case 'c':
		return o.v
	case 'g':
		return in.global(o.g)
	}
	return nil
}

func (in *Interp) global(g *ssa.Global) *value {
	if a, ok := in.globals[g]; ok {
		return a
	}
	if g.Pkg != nil && !in.inited[g.Pkg] {
		in.inited[g.Pkg] = true
		in.P.build(g.Pkg)
		if ini := g.Pkg.Func("init"); ini != nil {
			// run the package initializer with imports initialised lazily
			saved := in.depth
			in.call(ini, nil, nil)
			in.depth = saved
		}
		if a, ok := in.globals[g]; ok {
			return a
		}
	}
	v := zero(g.Type().Underlying().(*types.Pointer).Elem())
	a := &v
	in.globals[g] = a
	return a
}

func (in *Interp) cfnOf(fn *ssa.Function) *cfn {
	if c, ok := in.local[fn]; ok {
		return c
	}
	c := in.P.compile(fn)
	in.local[fn] = c
	return c
}

func (in *Interp) callValue(f value, args []value) value {
	switch f := f.(type) {
	case *ssa.Function:
		return in.call(f, args, nil)
	case *closure:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return in.call(f.fn, args, f.env)
	case *boundNative:
		return f.f(in.p, args)
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf("call of %T", f)})
}

func (in *Interp) call(fn *ssa.Function, args []value, env []value) value {
	c := in.cfnOf(fn)
	if c.intr != nil {
		r := c.intr(in, args)
		if _, fall := r.(fallThrough); !fall {
			return r
		}
		if fn.Blocks == nil {
			in.p.abort(abUnsupported, "no symbolic model for %s", c.name)
		}
	}
	if c.target != nil {
		return in.call(c.target, args, nil)
	}
	if fn.Blocks == nil {
		in.p.abort(abUnsupported, "function without a body: %s", c.name)
	}
	if c.isRepo {
		in.touched[fn] = true
	}
	in.depth++
	if in.depth > in.maxDep {
		in.p.violate("overflow", fmt.Sprintf("unbounded recursion (more than %d frames) in %s", in.maxDep, c.name), in.p.curModel(), false, nil)
		in.p.abort(abStop, "call depth")
	}
	fr := &frame{fn: c, env: env}
	fr.regs = make([]value, c.nregs)
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	in.runFrame(fr)
	in.depth--
	return fr.result
}

type fallThrough struct{}

func (in *Interp) runFrame(fr *frame) {
	hasDefer := fr.fn.fn.Recover != nil
	if !hasDefer {
		in.run(fr, 0)
		return
	}
	depth := in.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case targetPanic:
					fr.panicking = true
					fr.panicVal = r
					in.depth = depth
				default:
					panic(r)
				}
			}
		}()
		in.run(fr, 0)
	}()
	if fr.panicking {
		in.runDefers(fr)
		if fr.panicking {
			panic(fr.panicVal)
		}
		in.run(fr, fr.fn.fn.Recover.Index)
	}
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := in.depth
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panicking = true
						fr.panicVal = tp
						in.depth = depth
						return
					}
					panic(r)
				}
			}()
			in.pushRecover(fr)
			defer in.popRecover()
			if b, ok := d.fn.(*ssa.Builtin); ok {
				in.builtin(fr, b, d.args, d.ins.Common())
				return
			}
			in.callValue(d.fn, d.args)
		}()
	}
}

func (in *Interp) pushRecover(fr *frame) { in.recov = append(in.recov, recEntry{fr, in.depth}) }
func (in *Interp) popRecover()           { in.recov = in.recov[:len(in.recov)-1] }

func (in *Interp) run(fr *frame, block int) {
	c := fr.fn
	prev := -1
	p := in.p
	for {
		instrs := c.blocks[block]
		in.steps += len(instrs)
		if in.steps > in.maxStep {
			p.violate("hang", fmt.Sprintf("no termination within %d steps, in %s", in.maxStep, c.name), p.curModel(), false, nil)
			p.abort(abStop, "step budget")
		}
		i := 0
		// phis are evaluated simultaneously
		if len(instrs) > 0 {
			if _, ok := instrs[0].in.(*ssa.Phi); ok {
				preds := c.fn.Blocks[block].Preds
				pi := -1
				for k, b := range preds {
					if b.Index == prev {
						pi = k
						break
					}
				}
				var tmp [16]value
				vals := tmp[:0]
				for ; i < len(instrs); i++ {
					if _, ok := instrs[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(in, &instrs[i].ops[pi]))
				}
				for k, v := range vals {
					fr.regs[instrs[k].dst] = v
				}
			}
		}
		next := -1
		for ; i < len(instrs); i++ {
			ci := &instrs[i]
			switch x := ci.in.(type) {
			case *ssa.BinOp:
				fr.regs[ci.dst] = in.binop(x.Op, fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]), ci.bi, ci.bi2)
			case *ssa.UnOp:
				fr.regs[ci.dst] = in.unop(x, fr.get(in, &ci.ops[0]), ci.bi)
			case *ssa.If:
				cond := fr.get(in, &ci.ops[0]).(*Term)
				succs := c.fn.Blocks[block].Succs
				if p.branch(cond) {
					next = succs[0].Index
				} else {
					next = succs[1].Index
				}
			case *ssa.Jump:
				next = c.fn.Blocks[block].Succs[0].Index
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(in, &ci.ops[0])
				default:
					t := make(tuple, len(ci.ops))
					for k := range ci.ops {
						t[k] = fr.get(in, &ci.ops[k])
					}
					fr.result = t
				}
				return
			case *ssa.Call:
				fr.regs[ci.dst] = in.doCall(fr, ci, &x.Call)
			case *ssa.Alloc:
				v := zero(x.Type().Underlying().(*types.Pointer).Elem())
				fr.regs[ci.dst] = &v
			case *ssa.Store:
				a := fr.get(in, &ci.ops[0]).(*value)
				if a == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				store(a, fr.get(in, &ci.ops[1]))
			case *ssa.FieldAddr:
				a, ok := fr.get(in, &ci.ops[0]).(*value)
				if !ok {
					p.abort(abUnsupported, "field address of %T in %s", fr.get(in, &ci.ops[0]), c.name)
				}
				if a == nil {
					in.rtPanic("invalid memory address or nil pointer dereference")
				}
				fr.regs[ci.dst] = &(*a).(structure)[x.Field]
			case *ssa.Field:
				fr.regs[ci.dst] = copyVal(fr.get(in, &ci.ops[0]).(structure)[x.Field])
			case *ssa.IndexAddr:
				fr.regs[ci.dst] = in.indexAddr(fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]), ci.bi)
			case *ssa.Index:
				fr.regs[ci.dst] = in.index(fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]), ci.bi)
			case *ssa.Extract:
				fr.regs[ci.dst] = fr.get(in, &ci.ops[0]).(tuple)[x.Index]
			case *ssa.ChangeType:
				fr.regs[ci.dst] = fr.get(in, &ci.ops[0])
			case *ssa.ChangeInterface:
				fr.regs[ci.dst] = fr.get(in, &ci.ops[0])
			case *ssa.MakeInterface:
				fr.regs[ci.dst] = iface{t: x.X.Type(), v: copyVal(fr.get(in, &ci.ops[0]))}
			case *ssa.Convert:
				fr.regs[ci.dst] = in.convert(x.X.Type(), x.Type(), fr.get(in, &ci.ops[0]), ci.bi, ci.bi2)
			case *ssa.MultiConvert:
				fr.regs[ci.dst] = in.convert(x.X.Type(), x.Type(), fr.get(in, &ci.ops[0]), basicOf(x.X.Type()), basicOf(x.Type()))
			case *ssa.TypeAssert:
				fr.regs[ci.dst] = in.typeAssert(x, fr.get(in, &ci.ops[0]).(iface))
			case *ssa.MakeSlice:
				fr.regs[ci.dst] = in.makeSlice(x, fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]))
			case *ssa.Slice:
				fr.regs[ci.dst] = in.slice(x, fr, ci)
			case *ssa.MakeMap:
				fr.regs[ci.dst] = &smap{idx: map[string]int{}}
			case *ssa.MapUpdate:
				m := fr.get(in, &ci.ops[0]).(*smap)
				if m == nil {
					panic(targetPanic{in.mkError("assignment to entry in nil map")})
				}
				p.mapSet(m, copyVal(fr.get(in, &ci.ops[1])), copyVal(fr.get(in, &ci.ops[2])))
			case *ssa.Lookup:
				fr.regs[ci.dst] = in.lookup(x, fr.get(in, &ci.ops[0]), fr.get(in, &ci.ops[1]))
			case *ssa.Range:
				switch v := fr.get(in, &ci.ops[0]).(type) {
				case *smap:
					it := &mapIter{m: v}
					if v != nil {
						for k := range v.keys {
							if v.alive[k] {
								it.order = append(it.order, k)
							}
						}
					}
					fr.regs[ci.dst] = it
				default:
					fr.regs[ci.dst] = &strIter{b: strBytes(v)}
				}
			case *ssa.Next:
				fr.regs[ci.dst] = in.next(x, fr.get(in, &ci.ops[0]))
			case *ssa.MakeClosure:
				cl := &closure{fn: x.Fn.(*ssa.Function)}
				for k := range x.Bindings {
					cl.env = append(cl.env, fr.get(in, &ci.ops[k+1]))
				}
				fr.regs[ci.dst] = cl
			case *ssa.Defer:
				fn, args := in.prepareCall(fr, ci, &x.Call)
				fr.defers = append(fr.defers, deferred{fn, args, x})
			case *ssa.RunDefers:
				in.runDefers(fr)
				if fr.panicking {
					panic(fr.panicVal)
				}
			case *ssa.Panic:
				panic(targetPanic{fr.get(in, &ci.ops[0])})
			case *ssa.SliceToArrayPointer:
				s := fr.get(in, &ci.ops[0]).([]value)
				n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
				if len(s) < n {
					in.rtPanic("cannot convert slice to array pointer")
				}
				var v value = array(s[:n:n])
				fr.regs[ci.dst] = &v
			default:
				p.abort(abUnsupported, "instruction %T in %s", ci.in, c.name)
			}
		}
		prev = block
		block = next
		if block < 0 {
			p.abort(abUnsupported, "fell off a block in %s", c.name)
		}
	}
}

func (in *Interp) prepareCall(fr *frame, ci *cins, call *ssa.CallCommon) (value, []value) {
	ops := ci.ops
	if call.IsInvoke() {
		recv, ok := fr.get(in, &ops[0]).(iface)
		if !ok {
			in.p.abort(abUnsupported, "invoke on %T", fr.get(in, &ops[0]))
		}
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := in.P.method(recv.t, call.Method)
		if fn == nil {
			in.p.abort(abUnsupported, "no method %s on %s", call.Method.Name(), recv.t)
		}
		args := make([]value, 0, len(ops))
		args = append(args, recv.v)
		for k := 1; k < len(ops); k++ {
			args = append(args, copyVal(fr.get(in, &ops[k])))
		}
		return fn, args
	}
	f := fr.get(in, &ops[0])
	args := make([]value, 0, len(ops)-1)
	for k := 1; k < len(ops); k++ {
		args = append(args, copyVal(fr.get(in, &ops[k])))
	}
	return f, args
}

func (in *Interp) doCall(fr *frame, ci *cins, call *ssa.CallCommon) value {
	f, args := in.prepareCall(fr, ci, call)
	switch f := f.(type) {
	case *ssa.Builtin:
		return in.builtin(fr, f, args, call)
	case *ssa.Function:
		if f.Synthetic == "package initializer" && f.Name() == "init" {
			return nil // imported packages are initialised lazily
		}
		return in.call(f, args, nil)
	default:
		return in.callValue(f, args)
	}
}

func (P *Program) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	P.methMu.Lock()
	defer P.methMu.Unlock()
	if f, ok := P.meths[k]; ok {
		return f
	}
	sel := P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = P.prog.MethodValue(sel)
	}
	P.meths[k] = f
	return f
}

func (in *Interp) next(x *ssa.Next, it value) value {
	switch it := it.(type) {
	case *mapIter:
		for it.i < len(it.order) {
			k := it.order[it.i]
			it.i++
			if it.m.alive[k] {
				return tuple{tTrue, copyVal(it.m.keys[k]), copyVal(it.m.vals[k])}
			}
		}
		tt := x.Type().(*types.Tuple)
		return tuple{tFalse, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type())}
	case *strIter:
		if it.i >= len(it.b) {
			return tuple{tFalse, constTab[64][0], constTab[32][0]}
		}
		idx := it.i
		b0 := it.b[idx]
		if in.p.branch(in.p.ts.Ult(b0, K(8, 0x80))) {
			it.i++
			return tuple{tTrue, K(64, uint64(idx)), in.p.ts.Zext(b0, 32)}
		}
		var buf []byte
		for k := idx; k < len(it.b) && k < idx+4; k++ {
			buf = append(buf, byte(in.p.concretize(it.b[k], "non-ASCII string byte")))
		}
		r, n := utf8.DecodeRune(buf)
		it.i += n
		return tuple{tTrue, K(64, uint64(idx)), K(32, uint64(uint32(r)))}
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf("next on %T", it)})
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v iface) value {
	ok := false
	var res value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if v.t != nil && types.Implements(v.t, it) {
			ok = true
			res = v
		} else {
			res = iface{}
		}
	} else {
		if v.t != nil && types.Identical(v.t, x.AssertedType) {
			ok = true
			res = copyVal(v.v)
		} else if x.CommaOk {
			res = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		return tuple{res, B(ok)}
	}
	if !ok {
		in.rtPanic(fmt.Sprintf("interface conversion: %v is not %v", v.t, x.AssertedType))
	}
	return res
}

var _ = token.ADD
