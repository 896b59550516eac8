package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type (
	structure []value
	array     []value
	tuple     []value
	iface     struct {
		t types.Type
		v value
	}
	symStr    struct{ b []*Term }
	opaqueStr struct{ hint string }
	closure   struct {
		fn  *ssa.Function
		env []value
	}
	boundNative struct {
		name string
		f    func(p *Path, args []value) value
	}
	sliceData struct{ s []value } // unsafe.SliceData / unsafe.StringData
	strData   struct{ s value }
	smap      struct {
		keys  []value
		vals  []value
		alive []bool
		idx   map[string]int
		nsym  int
		n     int
	}
	mapIter struct {
		m     *smap
		order []int
		i     int
	}
	strIter struct {
		b []*Term
		i int
	}
)

type basicInfo struct {
	kind   byte // 'i' int, 'b' bool, 'f' float, 's' string, 'c' complex, 'u' unsafe pointer, 0 other
	w      uint8
	signed bool
}

func basicOf(t types.Type) basicInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return basicInfo{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return basicInfo{kind: 'b'}
	case types.Int, types.Int64, types.UntypedInt:
		return basicInfo{'i', 64, true}
	case types.Int8:
		return basicInfo{'i', 8, true}
	case types.Int16:
		return basicInfo{'i', 16, true}
	case types.Int32, types.UntypedRune:
		return basicInfo{'i', 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return basicInfo{'i', 64, false}
	case types.Uint8:
		return basicInfo{'i', 8, false}
	case types.Uint16:
		return basicInfo{'i', 16, false}
	case types.Uint32:
		return basicInfo{'i', 32, false}
	case types.Float32:
		return basicInfo{kind: 'f', w: 32}
	case types.Float64, types.UntypedFloat:
		return basicInfo{kind: 'f', w: 64}
	case types.Complex64, types.Complex128, types.UntypedComplex:
		return basicInfo{kind: 'c', w: 128}
	case types.String, types.UntypedString:
		return basicInfo{kind: 's'}
	case types.UnsafePointer:
		return basicInfo{kind: 'u'}
	}
	return basicInfo{}
}

func zero(t types.Type) value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		bi := basicOf(t)
		switch bi.kind {
		case 'b':
			return tFalse
		case 'i':
			return constTab[bi.w][0]
		case 'f':
			return float64(0)
		case 'c':
			return complex128(0)
		case 's':
			return ""
		case 'u':
			return (*value)(nil)
		}
		return nil
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*smap)(nil)
	case *types.Chan:
		return nil
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Array:
		n := int(t.Len())
		a := make(array, n)
		fillZero(a, t.Elem())
		return a
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf("zero value of %s", t)})
}

func fillZero(a []value, elem types.Type) {
	if len(a) == 0 {
		return
	}
	switch elem.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a {
			a[i] = zero(elem)
		}
	default:
		z := zero(elem)
		for i := range a {
			a[i] = z
		}
	}
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		c := make(structure, len(v))
		for i, x := range v {
			c[i] = copyVal(x)
		}
		return c
	case array:
		c := make(array, len(v))
		for i, x := range v {
			c[i] = copyVal(x)
		}
		return c
	}
	return v
}

func store(dst *value, v value) {
	switch v := v.(type) {
	case structure:
		d, ok := (*dst).(structure)
		if ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	case array:
		d, ok := (*dst).(array)
		if ok && len(d) == len(v) {
			for i := range v {
				store(&d[i], v[i])
			}
			return
		}
		*dst = copyVal(v)
	default:
		*dst = v
	}
}

// ---- strings ----

func strBytes(v value) []*Term {
	switch s := v.(type) {
	case string:
		b := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			b[i] = constTab[8][s[i]]
		}
		return b
	case *symStr:
		return s.b
	case *opaqueStr:
		panic(pathAbort{abUnsupported, "inspection of an opaque formatted string: " + s.hint})
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf("string value %T", v)})
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	return len(strBytes(v))
}

func mkStr(b []*Term) value {
	for _, t := range b {
		if t.op != OpConst {
			return &symStr{b: append([]*Term(nil), b...)}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.val)
	}
	return string(buf)
}

func bytesOf(v value) []*Term {
	s, ok := v.([]value)
	if !ok {
		panic(pathAbort{abUnsupported, fmt.Sprintf("byte slice expected, got %T", v)})
	}
	b := make([]*Term, len(s))
	for i, x := range s {
		b[i] = x.(*Term)
	}
	return b
}

func toSlice(b []*Term) []value {
	r := make([]value, len(b))
	for i, t := range b {
		r[i] = t
	}
	return r
}

func constBytes(b []*Term) ([]byte, bool) {
	r := make([]byte, len(b))
	for i, t := range b {
		if t.op != OpConst {
			return nil, false
		}
		r[i] = byte(t.val)
	}
	return r, true
}

// ---- equality ----

func (p *Path) equals(x, y value) *Term {
	switch x := x.(type) {
	case *Term:
		return p.ts.Eq(x, y.(*Term))
	case float64:
		return B(x == y.(float64))
	case complex128:
		return B(x == y.(complex128))
	case string:
		if ys, ok := y.(string); ok {
			return B(x == ys)
		}
		return p.ts.EqBytes(strBytes(x), strBytes(y))
	case *symStr, *opaqueStr:
		if x == y {
			return tTrue
		}
		return p.ts.EqBytes(strBytes(x), strBytes(y))
	case *value:
		yp, ok := y.(*value)
		return B(ok && x == yp)
	case *smap:
		ym, ok := y.(*smap)
		return B(ok && x == ym)
	case []value:
		ys, ok := y.([]value)
		return B(ok && x == nil && ys == nil)
	case *closure:
		yc, ok := y.(*closure)
		return B(ok && x == yc)
	case *ssa.Function:
		yc, ok := y.(*ssa.Function)
		return B(ok && x == yc)
	case *boundNative:
		yc, ok := y.(*boundNative)
		return B(ok && x == yc)
	case *ssa.Builtin:
		return B(x == y)
	case structure:
		ys := y.(structure)
		r := tTrue
		for i := range x {
			r = p.ts.And(r, p.equals(x[i], ys[i]))
		}
		return r
	case array:
		ys := y.(array)
		r := tTrue
		for i := range x {
			r = p.ts.And(r, p.equals(x[i], ys[i]))
		}
		return r
	case iface:
		yi, ok := y.(iface)
		if !ok {
			panic(pathAbort{abUnsupported, fmt.Sprintf("comparison of interface with %T", y)})
		}
		if x.t == nil || yi.t == nil {
			return B(x.t == nil && yi.t == nil)
		}
		if !types.Identical(x.t, yi.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			p.in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return p.equals(x.v, yi.v)
	case nil:
		return B(y == nil)
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf("equality on %T", x)})
}

// keyString gives a canonical form of a fully concrete map key.
func keyString(v value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if x.op != OpConst {
			return false
		}
		sb.WriteByte('i')
		sb.WriteString(strconv.FormatUint(x.val, 10))
		sb.WriteByte(';')
	case string:
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(x)))
		sb.WriteByte(':')
		sb.WriteString(x)
	case float64:
		fmt.Fprintf(sb, "f%v;", x)
	case structure:
		for _, e := range x {
			if !keyString(e, sb) {
				return false
			}
		}
	case array:
		for _, e := range x {
			if !keyString(e, sb) {
				return false
			}
		}
	case *value:
		fmt.Fprintf(sb, "p%p;", x)
	case iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString(x.t.String())
		sb.WriteByte('|')
		return keyString(x.v, sb)
	default:
		return false
	}
	return true
}

func (p *Path) mapFind(m *smap, k value) int {
	if m == nil {
		return -1
	}
	var sb strings.Builder
	conc := keyString(k, &sb)
	if conc {
		if i, ok := m.idx[sb.String()]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.alive[i] {
			continue
		}
		if p.branch(p.equals(m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (p *Path) mapSet(m *smap, k, v value) {
	if i := p.mapFind(m, k); i >= 0 {
		m.vals[i] = v
		return
	}
	var sb strings.Builder
	if keyString(k, &sb) {
		m.idx[sb.String()] = len(m.keys)
	} else {
		m.nsym++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
	m.alive = append(m.alive, true)
	m.n++
}

func (p *Path) mapDelete(m *smap, k value) {
	i := p.mapFind(m, k)
	if i < 0 {
		return
	}
	var sb strings.Builder
	if keyString(m.keys[i], &sb) {
		delete(m.idx, sb.String())
	} else {
		m.nsym--
	}
	m.alive[i] = false
	m.n--
}
