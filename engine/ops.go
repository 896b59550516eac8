package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const maxAlloc = 1 << 20 // elements; larger allocations are treated as exhaustion

func (in *Interp) binop(op token.Token, x, y value, bi, bi2 basicInfo) value {
	ts := in.p.ts
	switch op {
	case token.EQL:
		return in.p.equals(x, y)
	case token.NEQ:
		return ts.Not(in.p.equals(x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return ts.And(a, b)
			case token.OR, token.LOR:
				return ts.Or(a, b)
			case token.XOR:
				return ts.Not(ts.Eq(a, b))
			case token.AND_NOT:
				return ts.And(a, ts.Not(b))
			}
			break
		}
		// fast constant path
		if a.op == OpConst && b.op == OpConst && a.w == b.w {
			av, bv := a.val, b.val
			sa, sb := sext64(av, a.w), sext64(bv, b.w)
			switch op {
			case token.ADD:
				return K(a.w, av+bv)
			case token.SUB:
				return K(a.w, av-bv)
			case token.LSS:
				if bi.signed {
					return B(sa < sb)
				}
				return B(av < bv)
			case token.LEQ:
				if bi.signed {
					return B(sa <= sb)
				}
				return B(av <= bv)
			case token.GTR:
				if bi.signed {
					return B(sa > sb)
				}
				return B(av > bv)
			case token.GEQ:
				if bi.signed {
					return B(sa >= sb)
				}
				return B(av >= bv)
			}
		}
		switch op {
		case token.ADD:
			return ts.arith(OpAdd, a, b)
		case token.SUB:
			return ts.arith(OpSub, a, b)
		case token.MUL:
			return ts.arith(OpMul, a, b)
		case token.QUO, token.REM:
			if in.p.branch(ts.Eq(b, K(b.w, 0))) {
				in.rtPanic("integer divide by zero")
			}
			var o Op
			switch {
			case op == token.QUO && bi.signed:
				o = OpSdiv
			case op == token.QUO:
				o = OpUdiv
			case bi.signed:
				o = OpSrem
			default:
				o = OpUrem
			}
			return ts.Div(o, a, b)
		case token.AND:
			return ts.bitop(OpBvAnd, a, b)
		case token.OR:
			return ts.bitop(OpBvOr, a, b)
		case token.XOR:
			return ts.bitop(OpBvXor, a, b)
		case token.AND_NOT:
			return ts.bitop(OpBvAnd, a, ts.BvNot(b))
		case token.SHL, token.SHR:
			if bi2.signed {
				if in.p.branch(ts.Slt(b, K(b.w, 0))) {
					in.rtPanic("negative shift amount")
				}
			}
			// bring the amount to the width of a
			var amt *Term
			if b.w <= a.w {
				amt = ts.Zext(b, a.w)
			} else {
				if in.p.branch(ts.Ult(b, K(b.w, uint64(a.w)))) {
					amt = ts.Extract(b, a.w-1, 0)
				} else {
					amt = K(a.w, uint64(a.w))
					if uint64(a.w) > mask(a.w) {
						amt = K(a.w, mask(a.w))
					}
				}
			}
			o := OpShl
			if op == token.SHR {
				o = OpLshr
				if bi.signed {
					o = OpAshr
				}
			}
			return ts.Shift(o, a, amt)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if op == token.GTR || op == token.GEQ {
				a, b = b, a
			}
			strict := op == token.LSS || op == token.GTR
			if bi.signed {
				if strict {
					return ts.Slt(a, b)
				}
				return ts.Not(ts.Slt(b, a))
			}
			if strict {
				return ts.Ult(a, b)
			}
			return ts.Not(ts.Ult(b, a))
		}
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return f(a+b, bi)
		case token.SUB:
			return f(a-b, bi)
		case token.MUL:
			return f(a*b, bi)
		case token.QUO:
			return f(a/b, bi)
		case token.LSS:
			return B(a < b)
		case token.LEQ:
			return B(a <= b)
		case token.GTR:
			return B(a > b)
		case token.GEQ:
			return B(a >= b)
		}
	case string, *symStr, *opaqueStr:
		if op == token.ADD {
			_, o1 := x.(*opaqueStr)
			_, o2 := y.(*opaqueStr)
			if o1 || o2 {
				return &opaqueStr{hint: "concat"}
			}
			s1, c1 := x.(string)
			s2, c2 := y.(string)
			if c1 && c2 {
				return s1 + s2
			}
			return mkStr(append(append([]*Term{}, strBytes(x)...), strBytes(y)...))
		}
		if s1, ok := x.(string); ok {
			if s2, ok := y.(string); ok {
				switch op {
				case token.LSS:
					return B(s1 < s2)
				case token.LEQ:
					return B(s1 <= s2)
				case token.GTR:
					return B(s1 > s2)
				case token.GEQ:
					return B(s1 >= s2)
				}
			}
		}
		sa, sb := strBytes(x), strBytes(y)
		switch op {
		case token.LSS:
			return in.p.lexLess(sa, sb)
		case token.GTR:
			return in.p.lexLess(sb, sa)
		case token.LEQ:
			return ts.Not(in.p.lexLess(sb, sa))
		case token.GEQ:
			return ts.Not(in.p.lexLess(sa, sb))
		}
	}
	in.p.abort(abUnsupported, "binary %s on %T", op, x)
	return nil
}

func (p *Path) lexLess(a, b []*Term) *Term {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	r := B(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = p.ts.Or(p.ts.Ult(a[i], b[i]), p.ts.And(p.ts.Eq(a[i], b[i]), r))
	}
	return r
}

func f(v float64, bi basicInfo) value {
	if bi.w == 32 {
		return float64(float32(v))
	}
	return v
}

func (in *Interp) unop(x *ssa.UnOp, v value, bi basicInfo) value {
	switch x.Op {
	case token.MUL:
		switch a := v.(type) {
		case *value:
			if a == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			return copyVal(*a)
		}
		in.p.abort(abUnsupported, "load through %T", v)
	case token.NOT:
		return in.p.ts.Not(v.(*Term))
	case token.SUB:
		switch a := v.(type) {
		case *Term:
			return in.p.ts.Neg(a)
		case float64:
			return -a
		}
	case token.XOR:
		return in.p.ts.BvNot(v.(*Term))
	}
	in.p.abort(abUnsupported, "unary %s on %T", x.Op, v)
	return nil
}

// idx64 widens an index to a 64-bit signed value.
func (in *Interp) idx64(t *Term, signed bool) *Term {
	if signed {
		return in.p.ts.Sext(t, 64)
	}
	return in.p.ts.Zext(t, 64)
}

func (in *Interp) checkIndex(iv value, n int, bi basicInfo) int {
	t := iv.(*Term)
	if t.op == OpConst {
		var i int64
		if bi.signed {
			i = sext64(t.val, t.w)
		} else {
			i = int64(t.val)
		}
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	w := in.idx64(t, bi.signed)
	if !in.p.branch(in.p.ts.Ult(w, K(64, uint64(n)))) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(in.p.concretize(w, "index"))
}

func (in *Interp) indexAddr(x, iv value, bi basicInfo) value {
	switch a := x.(type) {
	case []value:
		i := in.checkIndex(iv, len(a), bi)
		return &a[i]
	case *value:
		if a == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		arr := (*a).(array)
		t := iv.(*Term)
		if t.op != OpConst {
			// constant-table lookup: yield a read-only temporary holding the selected term
			if r := in.tableTerm([]value(arr), t, bi); r != nil {
				return &r[0]
			}
		}
		i := in.checkIndex(iv, len(arr), bi)
		return &arr[i]
	}
	in.p.abort(abUnsupported, "index address of %T", x)
	return nil
}

// tableTerm selects from a table of constants by a symbolic index without forking over values.
func (in *Interp) tableTerm(tab []value, t *Term, bi basicInfo) []value {
	if len(tab) < 16 || len(tab) > 256 {
		return nil
	}
	for _, v := range tab {
		k, ok := v.(*Term)
		if !ok || k.op != OpConst {
			return nil
		}
	}
	ts := in.p.ts
	w := in.idx64(t, bi.signed)
	if !in.p.branch(ts.Ult(w, K(64, uint64(len(tab))))) {
		in.rtPanic("index out of range")
	}
	base := t
	for base.op == OpZext {
		base = base.a
	}
	ew := tab[0].(*Term).w
	if base.op == OpHex {
		// 16 possible index values
		id := true
		for i := 0; i < 16; i++ {
			if tab[hexDigits[i]].(*Term).val != uint64(i) {
				id = false
			}
		}
		if id {
			return []value{ts.Zext(base.a, ew)}
		}
	}
	if base.w == 4 && ew == 8 {
		hx := true
		for i := 0; i < 16; i++ {
			if tab[i].(*Term).val != uint64(hexDigits[i]) {
				hx = false
			}
		}
		if hx {
			return []value{ts.Hex(base)}
		}
	}
	r := tab[len(tab)-1].(*Term)
	for i := len(tab) - 2; i >= 0; i-- {
		r = ts.Ite(ts.Eq(w, K(64, uint64(i))), tab[i].(*Term), r)
	}
	return []value{r}
}

func (in *Interp) index(x, iv value, bi basicInfo) value {
	switch a := x.(type) {
	case array:
		t := iv.(*Term)
		if t.op != OpConst {
			if r := in.tableTerm([]value(a), t, bi); r != nil {
				return r[0]
			}
		}
		return copyVal(a[in.checkIndex(iv, len(a), bi)])
	case string, *symStr:
		t := iv.(*Term)
		b := strBytes(a)
		if t.op != OpConst {
			if r := in.tableTerm(toSlice(b), t, bi); r != nil {
				return r[0]
			}
		}
		if s, ok := a.(string); ok {
			return constTab[8][s[in.checkIndex(iv, len(s), bi)]]
		}
		return b[in.checkIndex(iv, len(b), bi)]
	}
	in.p.abort(abUnsupported, "index of %T", x)
	return nil
}

func (in *Interp) lookup(x *ssa.Lookup, m, k value) value {
	switch mm := m.(type) {
	case *smap:
		i := in.p.mapFind(mm, k)
		var v value
		if i >= 0 {
			v = copyVal(mm.vals[i])
		} else {
			et := x.X.Type().Underlying().(*types.Map).Elem()
			v = zero(et)
		}
		if x.CommaOk {
			return tuple{v, B(i >= 0)}
		}
		return v
	}
	return in.index(m, k, basicOf(x.Index.Type()))
}

func (in *Interp) makeSlice(x *ssa.MakeSlice, l, c value) value {
	n := in.allocSize(l.(*Term), basicOf(x.Len.Type()))
	cp := n
	if c != nil {
		cp = in.allocSize(c.(*Term), basicOf(x.Cap.Type()))
	}
	if cp < n {
		in.rtPanic("makeslice: cap out of range")
	}
	s := make([]value, cp)
	fillZero(s, x.Type().Underlying().(*types.Slice).Elem())
	return s[:n]
}

func (in *Interp) allocSize(t *Term, bi basicInfo) int {
	w := in.idx64(t, bi.signed)
	if w.op == OpConst {
		if w.val > 1<<40 {
			in.rtPanic("makeslice: len out of range")
		}
		if w.val > maxAlloc*64 {
			in.rtPanic(fmt.Sprintf("allocation of %d elements", w.val))
		}
		return int(w.val)
	}
	if !in.p.branch(in.p.ts.Ult(w, K(64, maxAlloc))) {
		in.rtPanic("makeslice: len out of range (allocation driven by unchecked data)")
	}
	return int(in.p.concretize(w, "allocation size"))
}

// bound resolves a slice bound into [0, max].
func (in *Interp) bound(v value, bi basicInfo, max int, def int) int {
	if v == nil {
		return def
	}
	t := v.(*Term)
	w := in.idx64(t, bi.signed)
	if w.op == OpConst {
		if w.val > uint64(max) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", int64(w.val), max))
		}
		return int(w.val)
	}
	if !in.p.branch(in.p.ts.Not(in.p.ts.Ult(K(64, uint64(max)), w))) {
		in.rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", max))
	}
	return int(in.p.concretize(w, "slice bound"))
}

func (in *Interp) slice(x *ssa.Slice, fr *frame, ci *cins) value {
	// operands: X, Low, High, Max
	v := fr.get(in, &ci.ops[0])
	get := func(i int) value {
		if i < len(ci.ops) {
			return fr.get(in, &ci.ops[i])
		}
		return nil
	}
	var lo, hi, mx value
	k := 1
	if x.Low != nil {
		lo = get(k)
	}
	k++
	if x.High != nil {
		hi = get(k)
	}
	k++
	if x.Max != nil {
		mx = get(k)
	}
	bt := func(v ssa.Value) basicInfo {
		if v == nil {
			return basicInfo{}
		}
		return basicOf(v.Type())
	}
	switch s := v.(type) {
	case string, *symStr, *opaqueStr:
		n := strLen(s)
		h := in.bound(hi, bt(x.High), n, n)
		l := in.bound(lo, bt(x.Low), h, 0)
		if c, ok := s.(string); ok {
			return c[l:h]
		}
		return mkStr(strBytes(s)[l:h])
	case []value:
		c := cap(s)
		m := in.bound(mx, bt(x.Max), c, c)
		h := in.bound(hi, bt(x.High), m, len(s))
		l := in.bound(lo, bt(x.Low), h, 0)
		if s == nil {
			return []value(nil)
		}
		return s[l:h:m]
	case *value:
		if s == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := (*s).(array)
		c := len(a)
		m := in.bound(mx, bt(x.Max), c, c)
		h := in.bound(hi, bt(x.High), m, c)
		l := in.bound(lo, bt(x.Low), h, 0)
		return []value(a[l:h:m])
	}
	in.p.abort(abUnsupported, "slice of %T", v)
	return nil
}

func (in *Interp) convert(from, to types.Type, v value, bi, bo basicInfo) value {
	ts := in.p.ts
	switch {
	case bi.kind == 'i' && bo.kind == 'i':
		t := v.(*Term)
		if bo.w <= t.w {
			return ts.Extract(t, bo.w-1, 0)
		}
		if bi.signed {
			return ts.Sext(t, bo.w)
		}
		return ts.Zext(t, bo.w)
	case bi.kind == 'i' && bo.kind == 'f':
		t := v.(*Term)
		x := in.p.concretize(t, "integer to float conversion")
		if bi.signed {
			return f(float64(sext64(x, t.w)), bo)
		}
		return f(float64(x), bo)
	case bi.kind == 'f' && bo.kind == 'i':
		x := v.(float64)
		if bo.signed {
			return K(bo.w, uint64(int64(x)))
		}
		if x < 0 || math.IsNaN(x) {
			return K(bo.w, uint64(int64(x)))
		}
		return K(bo.w, uint64(x))
	case bi.kind == 'f' && bo.kind == 'f':
		return f(v.(float64), bo)
	case bi.kind == 'i' && bo.kind == 's':
		t := v.(*Term)
		x := in.p.concretize(t, "integer to string conversion")
		return string(rune(sext64(x, t.w)))
	case bi.kind == 's' && bo.kind == 's':
		return v
	case bi.kind == 's':
		el := basicOf(to.Underlying().(*types.Slice).Elem())
		if el.w == 8 {
			return toSlice(strBytes(v))
		}
		// []rune
		var r []value
		it := &strIter{b: strBytes(v)}
		for it.i < len(it.b) {
			b0 := it.b[it.i]
			if in.p.branch(ts.Ult(b0, K(8, 0x80))) {
				r = append(r, ts.Zext(b0, 32))
				it.i++
				continue
			}
			var buf []byte
			for k := it.i; k < len(it.b) && k < it.i+4; k++ {
				buf = append(buf, byte(in.p.concretize(it.b[k], "non-ASCII string byte")))
			}
			c, n := utf8.DecodeRune(buf)
			it.i += n
			r = append(r, K(32, uint64(uint32(c))))
		}
		return r
	case bo.kind == 's':
		el := basicOf(from.Underlying().(*types.Slice).Elem())
		s := v.([]value)
		if el.w == 8 {
			return mkStr(bytesOf(v))
		}
		var out []*Term
		for _, x := range s {
			t := x.(*Term)
			if in.p.branch(ts.Ult(t, K(32, 0x80))) {
				out = append(out, ts.Extract(t, 7, 0))
				continue
			}
			c := in.p.concretize(t, "rune")
			for _, b := range []byte(string(rune(int32(c)))) {
				out = append(out, K(8, uint64(b)))
			}
		}
		return mkStr(out)
	case bi.kind == 'u' || bo.kind == 'u':
		return v // unsafe.Pointer conversions keep the referent
	}
	if _, ok := v.([]value); ok {
		return v
	}
	in.p.abort(abUnsupported, "conversion %s -> %s", from, to)
	return nil
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case []value:
			return K(64, uint64(len(x)))
		case string, *symStr, *opaqueStr:
			return K(64, uint64(strLen(x)))
		case *smap:
			if x == nil {
				return constTab[64][0]
			}
			return K(64, uint64(x.n))
		case array:
			return K(64, uint64(len(x)))
		case *value:
			return K(64, uint64(len((*x).(array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return K(64, uint64(cap(x)))
		case array:
			return K(64, uint64(len(x)))
		case *value:
			return K(64, uint64(len((*x).(array))))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case []value:
			src = s
		default:
			src = toSlice(strBytes(s))
		}
		if len(src) == 0 {
			return dst
		}
		n := len(dst) + len(src)
		if n <= cap(dst) {
			// in place: aliasing as in Go
			res := dst[:n]
			tmp := src
			if overlaps(dst[:cap(dst)], src) {
				tmp = append([]value(nil), src...)
			}
			for i, v := range tmp {
				res[len(dst)+i] = copyVal(v)
			}
			return res
		}
		nc := growCap(cap(dst), n, call.Args[0].Type())
		res := make([]value, n, nc)
		copy(res, dst)
		for i, v := range src {
			res[len(dst)+i] = copyVal(v)
		}
		if nc > n {
			fillZero(res[n:nc], call.Args[0].Type().Underlying().(*types.Slice).Elem())
		}
		return res
	case "copy":
		dst := args[0].([]value)
		var src []value
		switch s := args[1].(type) {
		case []value:
			src = s
		default:
			src = toSlice(strBytes(s))
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		copy(dst, tmp)
		return K(64, uint64(n))
	case "delete":
		if m := args[0].(*smap); m != nil {
			in.p.mapDelete(m, args[1])
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		return in.doRecover()
	case "min", "max":
		bi := basicOf(call.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			var less *Term
			if b.Name() == "min" {
				less = in.binop(token.LSS, a, r, bi, bi).(*Term)
			} else {
				less = in.binop(token.GTR, a, r, bi, bi).(*Term)
			}
			if ta, ok := a.(*Term); ok {
				r = in.p.ts.Ite(less, ta, r.(*Term))
			} else if in.p.branch(less) {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *smap:
			if x != nil {
				*x = smap{idx: map[string]int{}}
			}
		case []value:
			fillZero(x, call.Args[0].Type().Underlying().(*types.Slice).Elem())
		}
		return nil
	case "SliceData":
		s := args[0].([]value)
		return &sliceData{s}
	case "StringData":
		return &strData{args[0]}
	case "String":
		n := int(in.p.concretize(args[1].(*Term), "unsafe.String length"))
		switch d := args[0].(type) {
		case *sliceData:
			return mkStr(bytesOf(d.s[:n]))
		case *strData:
			return mkStr(strBytes(d.s)[:n])
		case *value:
			if n == 0 {
				return ""
			}
		}
	case "Slice":
		n := int(in.p.concretize(args[1].(*Term), "unsafe.Slice length"))
		switch d := args[0].(type) {
		case *sliceData:
			return d.s[:n]
		case *strData:
			return toSlice(strBytes(d.s)[:n])
		}
	case "ssa:wrapnilchk":
		if a, ok := args[0].(*value); ok && a == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	in.p.abort(abUnsupported, "builtin %s on %T", b.Name(), args[0])
	return nil
}

func overlaps(a, b []value) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	// same backing array iff the ends of capacity coincide
	ae := &a[:cap(a)][cap(a)-1]
	be := &b[:cap(b)][cap(b)-1]
	return ae == be
}

// growCap follows the growth of the Go runtime closely enough for aliasing questions.
func growCap(old, n int, t types.Type) int {
	var probe int
	sz := int64(8)
	if s, ok := t.Underlying().(*types.Slice); ok {
		sz = sizes.Sizeof(s.Elem())
	}
	switch {
	case sz == 1:
		x := make([]byte, old)
		probe = cap(append(x, make([]byte, n-old)...))
	case sz <= 8:
		x := make([]uint64, old)
		probe = cap(append(x, make([]uint64, n-old)...))
	case sz <= 16:
		x := make([][2]uint64, old)
		probe = cap(append(x, make([][2]uint64, n-old)...))
	default:
		x := make([][3]uint64, old)
		probe = cap(append(x, make([][3]uint64, n-old)...))
	}
	if probe < n {
		probe = n
	}
	return probe
}

var sizes = types.SizesFor("gc", "amd64")

type recEntry struct {
	fr    *frame
	depth int
}

// doRecover implements recover(): effective in the function that was deferred by a panicking frame.
func (in *Interp) doRecover() value {
	if len(in.recov) == 0 {
		return iface{}
	}
	e := in.recov[len(in.recov)-1]
	if !e.fr.panicking || in.depth != e.depth+1 {
		return iface{}
	}
	e.fr.panicking = false
	v := e.fr.panicVal.(targetPanic).v
	e.fr.panicVal = nil
	if i, ok := v.(iface); ok {
		return i
	}
	return iface{t: types.Typ[types.String], v: v}
}
