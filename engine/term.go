package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpEq  // any -> bool
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpNeg
	OpShl
	OpLshr
	OpAshr
	OpExtract // hi..lo
	OpConcat
	OpZext
	OpSext
	OpHex // 4-bit nibble -> 8-bit lower-case hexadecimal digit
)

var opNames = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "extract", "concat", "zext", "sext", "hex"}

// Term is an SMT term; w == 0 means boolean, otherwise a bit-vector of width w (<= 64).
type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c *Term
	val     uint64
	id      int32
	evalVer int32
	emitVer int32
	evalVal uint64
	name    string
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

const smallConst = 1024

var constTab [65][smallConst]*Term
var tTrue, tFalse *Term

func init() {
	for w := 1; w <= 64; w++ {
		for v := 0; v < smallConst; v++ {
			constTab[w][v] = &Term{op: OpConst, w: uint8(w), val: uint64(v), id: -1}
		}
	}
	tTrue = &Term{op: OpConst, w: 0, val: 1, id: -1}
	tFalse = &Term{op: OpConst, w: 0, val: 0, id: -1}
}

func K(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return tTrue
		}
		return tFalse
	}
	v &= mask(w)
	if v < smallConst {
		return constTab[w][v]
	}
	return &Term{op: OpConst, w: w, val: v, id: -1}
}

func B(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() bool { return t.op == OpConst }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

type termKey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c int32
	ka, kb  uint64 // constants' values when operand id is -1
	kc      uint64
}

// Terms is a hash-consing term factory, one per path.
type Terms struct {
	hashOf func(b []*Term) *hashApp // the digest whose bytes these are, if known
	tab  map[termKey]*Term
	n    int32
	vars []*Term
}

func newTerms() *Terms { return &Terms{tab: map[termKey]*Term{}} }

func (ts *Terms) newVar(name string, w uint8) *Term {
	ts.n++
	t := &Term{op: OpVar, w: w, id: ts.n, name: name, lo: 0}
	ts.vars = append(ts.vars, t)
	return t
}

func kid(t *Term) (int32, uint64) {
	if t == nil {
		return 0, 0
	}
	if t.op == OpConst {
		return -1 - int32(t.w), t.val
	}
	return t.id, 0
}

func (ts *Terms) mk(op Op, w uint8, hi, lo uint8, a, b, c *Term) *Term {
	k := termKey{op: op, w: w, hi: hi, lo: lo}
	k.a, k.ka = kid(a)
	k.b, k.kb = kid(b)
	k.c, k.kc = kid(c)
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.n++
	t := &Term{op: op, w: w, hi: hi, lo: lo, a: a, b: b, c: c, id: ts.n}
	ts.tab[k] = t
	return t
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.op == OpConst && b.op == OpConst && a.w == b.w && a.val == b.val
}

func (ts *Terms) Not(a *Term) *Term {
	switch {
	case a.op == OpConst:
		return B(a.val == 0)
	case a.op == OpNot:
		return a.a
	}
	return ts.mk(OpNot, 0, 0, 0, a, nil, nil)
}

func (ts *Terms) And(a, b *Term) *Term {
	if a.op == OpConst {
		if a.val == 0 {
			return tFalse
		}
		return b
	}
	if b.op == OpConst {
		if b.val == 0 {
			return tFalse
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tFalse
	}
	return ts.mk(OpAnd, 0, 0, 0, a, b, nil)
}

func (ts *Terms) Or(a, b *Term) *Term {
	if a.op == OpConst {
		if a.val != 0 {
			return tTrue
		}
		return b
	}
	if b.op == OpConst {
		if b.val != 0 {
			return tTrue
		}
		return a
	}
	if a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return tTrue
	}
	return ts.mk(OpOr, 0, 0, 0, a, b, nil)
}

const hexDigits = "0123456789abcdef"

func unhexLower(c uint64) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	}
	return -1
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if same(a, b) {
		return tTrue
	}
	if a.op == OpConst && b.op == OpConst {
		return B(a.val == b.val)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OpConst {
			if b.val != 0 {
				return a
			}
			return ts.Not(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpHex:
			n := unhexLower(b.val)
			if n < 0 {
				return tFalse
			}
			return ts.Eq(a.a, K(4, uint64(n)))
		case OpZext:
			if b.val&^mask(a.a.w) != 0 {
				return tFalse
			}
			return ts.Eq(a.a, K(a.a.w, b.val))
		case OpConcat:
			return ts.And(ts.Eq(a.a, K(a.a.w, b.val>>a.b.w)), ts.Eq(a.b, K(a.b.w, b.val)))
		case OpIte:
			// ite(c,k1,k2) == k
			if a.b.op == OpConst && a.c.op == OpConst {
				e1, e2 := a.b.val == b.val, a.c.val == b.val
				switch {
				case e1 && e2:
					return tTrue
				case e1:
					return a.a
				case e2:
					return ts.Not(a.a)
				default:
					return tFalse
				}
			}
		case OpAdd:
			if a.b.op == OpConst {
				return ts.Eq(a.a, K(a.w, b.val-a.b.val))
			}
		}
	} else {
		if a.op == OpHex && b.op == OpHex {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return ts.Eq(a.a, b.a)
		}
		if a.op == OpConcat && b.op == OpConcat && a.a.w == b.a.w {
			return ts.And(ts.Eq(a.a, b.a), ts.Eq(a.b, b.b))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return ts.mk(OpEq, 0, 0, 0, a, b, nil)
}

// umax returns an upper bound on the unsigned value of t.
func umax(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpZext:
		return umax(t.a)
	case OpHex:
		return 'f'
	case OpBvAnd:
		m := mask(t.w)
		if t.b.op == OpConst && t.b.val < m {
			m = t.b.val
		}
		if x := umax(t.a); x < m {
			m = x
		}
		return m
	case OpUrem:
		if t.b.op == OpConst && t.b.val > 0 {
			return t.b.val - 1
		}
	case OpIte:
		x, y := umax(t.b), umax(t.c)
		if x > y {
			return x
		}
		return y
	case OpLshr:
		if t.b.op == OpConst && t.b.val < 64 {
			return umax(t.a) >> t.b.val
		}
	case OpAdd:
		x, y := umax(t.a), umax(t.b)
		if s := x + y; s >= x && s <= mask(t.w) {
			return s
		}
	case OpUdiv:
		if t.b.op == OpConst && t.b.val > 0 {
			return umax(t.a) / t.b.val
		}
	}
	return mask(t.w)
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return B(a.val < b.val)
	}
	if same(a, b) {
		return tFalse
	}
	if b.op == OpConst && (b.val == 0 || umax(a) < b.val) {
		return B(b.val != 0)
	}
	if a.op == OpConst && a.val >= umax(b) {
		return tFalse
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return ts.Ult(a.a, b.a)
	}
	return ts.mk(OpUlt, 0, 0, 0, a, b, nil)
}

func (ts *Terms) Ule(a, b *Term) *Term { return ts.Not(ts.Ult(b, a)) }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return B(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if same(a, b) {
		return tFalse
	}
	// both known non-negative: unsigned comparison
	half := mask(a.w) >> 1
	if umax(a) <= half && umax(b) <= half {
		return ts.Ult(a, b)
	}
	return ts.mk(OpSlt, 0, 0, 0, a, b, nil)
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.val != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.w == 0 {
		return ts.Or(ts.And(c, a), ts.And(ts.Not(c), b))
	}
	return ts.mk(OpIte, a.w, 0, 0, c, a, b)
}

func (ts *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return K(w, a.val>>lo)
	case OpExtract:
		return ts.Extract(a.a, a.lo+hi, a.lo+lo)
	case OpConcat:
		lw := a.b.w
		if hi < lw {
			return ts.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return ts.Extract(a.a, hi-lw, lo-lw)
		}
	case OpZext:
		iw := a.a.w
		if hi < iw {
			return ts.Extract(a.a, hi, lo)
		}
		if lo >= iw {
			return K(w, 0)
		}
		return ts.Zext(ts.Extract(a.a, iw-1, lo), w)
	case OpSext:
		if hi < a.a.w {
			return ts.Extract(a.a, hi, lo)
		}
	case OpLshr:
		if a.b.op == OpConst {
			k := a.b.val
			if uint64(hi)+k < uint64(a.w) {
				return ts.Extract(a.a, hi+uint8(k), lo+uint8(k))
			}
		}
	case OpShl:
		if a.b.op == OpConst {
			k := a.b.val
			if k <= uint64(lo) {
				return ts.Extract(a.a, hi-uint8(k), lo-uint8(k))
			}
			if k > uint64(hi) {
				return K(w, 0)
			}
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		return ts.bitop(a.op, ts.Extract(a.a, hi, lo), ts.Extract(a.b, hi, lo))
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return ts.Ite(a.a, ts.Extract(a.b, hi, lo), ts.Extract(a.c, hi, lo))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return ts.arith(a.op, ts.Extract(a.a, hi, 0), ts.Extract(a.b, hi, 0))
		}
	}
	return ts.mk(OpExtract, w, hi, lo, a, nil, nil)
}

func (ts *Terms) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w > 64 {
		panic("concat wider than 64")
	}
	if a.op == OpConst && b.op == OpConst {
		return K(w, a.val<<b.w|b.val)
	}
	if a.op == OpConst && a.val == 0 {
		return ts.Zext(b, w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.lo == b.hi+1 {
		return ts.Extract(a.a, a.hi, b.lo)
	}
	// right-nested re-association: concat(x, concat(y,z)) with x,y adjacent
	if b.op == OpConcat && a.op == OpExtract && b.a.op == OpExtract && a.a == b.a.a && a.lo == b.a.hi+1 {
		return ts.Concat(ts.Extract(a.a, a.hi, b.a.lo), b.b)
	}
	if a.op == OpConcat && a.b.op == OpExtract && b.op == OpExtract && a.b.a == b.a && a.b.lo == b.hi+1 {
		return ts.Concat(a.a, ts.Extract(b.a, a.b.hi, b.lo))
	}
	return ts.mk(OpConcat, w, 0, 0, a, b, nil)
}

func (ts *Terms) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return K(w, a.val)
	}
	if a.op == OpZext {
		return ts.Zext(a.a, w)
	}
	return ts.mk(OpZext, w, 0, 0, a, nil, nil)
}

func (ts *Terms) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return K(w, uint64(sext64(a.val, a.w)))
	}
	if umax(a) <= mask(a.w)>>1 {
		return ts.Zext(a, w)
	}
	return ts.mk(OpSext, w, 0, 0, a, nil, nil)
}

func (ts *Terms) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpBvAnd:
			return K(w, a.val&b.val)
		case OpBvOr:
			return K(w, a.val|b.val)
		default:
			return K(w, a.val^b.val)
		}
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		switch {
		case b.val == 0:
			if op == OpBvAnd {
				return b
			}
			return a
		case b.val == mask(w):
			if op == OpBvAnd {
				return a
			}
			if op == OpBvOr {
				return b
			}
		case op == OpBvAnd && b.val&(b.val+1) == 0:
			// low mask: zext(extract)
			n := uint8(0)
			for v := b.val; v != 0; v >>= 1 {
				n++
			}
			return ts.Zext(ts.Extract(a, n-1, 0), w)
		}
	}
	if same(a, b) {
		if op == OpBvXor {
			return K(w, 0)
		}
		return a
	}
	if op == OpBvOr {
		// disjoint: (x << k) | zext(y) with y.w <= k -> concat
		if r := ts.orConcat(a, b); r != nil {
			return r
		}
		if r := ts.orConcat(b, a); r != nil {
			return r
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return ts.mk(op, w, 0, 0, a, b, nil)
}

// orConcat rewrites hi|lo into a concatenation when hi has k low zero bits and lo fits in them.
func (ts *Terms) orConcat(hi, lo *Term) *Term {
	if hi.op == OpConcat && hi.b.op == OpConst && hi.b.val == 0 {
		k := hi.b.w
		if lo.op == OpZext && lo.a.w <= k {
			return ts.Concat(hi.a, ts.Zext(lo.a, k))
		}
	}
	if hi.op == OpZext && hi.a.op == OpConcat && hi.a.b.op == OpConst && hi.a.b.val == 0 {
		k := hi.a.b.w
		if lo.op == OpZext && lo.a.w <= k {
			return ts.Zext(ts.Concat(hi.a.a, ts.Zext(lo.a, k)), hi.w)
		}
	}
	return nil
}

func (ts *Terms) BvNot(a *Term) *Term {
	if a.op == OpConst {
		return K(a.w, ^a.val)
	}
	if a.op == OpBvNot {
		return a.a
	}
	return ts.mk(OpBvNot, a.w, 0, 0, a, nil, nil)
}

func (ts *Terms) Neg(a *Term) *Term {
	if a.op == OpConst {
		return K(a.w, -a.val)
	}
	return ts.mk(OpNeg, a.w, 0, 0, a, nil, nil)
}

func (ts *Terms) arith(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		switch op {
		case OpAdd:
			return K(w, a.val+b.val)
		case OpSub:
			return K(w, a.val-b.val)
		case OpMul:
			return K(w, a.val*b.val)
		}
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.b.op == OpConst {
				return ts.arith(OpAdd, a.a, K(w, a.b.val+b.val))
			}
		}
	case OpSub:
		if b.op == OpConst {
			return ts.arith(OpAdd, a, K(w, -b.val))
		}
		if same(a, b) {
			return K(w, 0)
		}
		// (x + k) - x
		if a.op == OpAdd && same(a.a, b) {
			return a.b
		}
		if a.op == OpAdd && same(a.b, b) {
			return a.a
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	}
	if (op == OpAdd || op == OpMul) && b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return ts.mk(op, w, 0, 0, a, b, nil)
}

// Div handles udiv/urem/sdiv/srem (divisor known non-zero on this path).
func (ts *Terms) Div(op Op, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := a.val, b.val
		sx, sy := sext64(x, w), sext64(y, w)
		switch op {
		case OpUdiv:
			return K(w, x/y)
		case OpUrem:
			return K(w, x%y)
		case OpSdiv:
			if sy == -1 {
				return K(w, uint64(-sx))
			}
			return K(w, uint64(sx/sy))
		case OpSrem:
			if sy == -1 {
				return K(w, 0)
			}
			return K(w, uint64(sx%sy))
		}
	}
	half := mask(w) >> 1
	if (op == OpSdiv || op == OpSrem) && umax(a) <= half && umax(b) <= half {
		if op == OpSdiv {
			op = OpUdiv
		} else {
			op = OpUrem
		}
	}
	if b.op == OpConst && b.val == 1 {
		if op == OpUdiv || op == OpSdiv {
			return a
		}
		return K(w, 0)
	}
	return ts.mk(op, w, 0, 0, a, b, nil)
}

// Shift: b has the same width as a; amounts >= width give 0 (or sign) as in Go.
func (ts *Terms) Shift(op Op, a, b *Term) *Term {
	w := a.w
	if b.op == OpConst {
		k := b.val
		if k == 0 {
			return a
		}
		if k >= uint64(w) {
			if op == OpAshr {
				k = uint64(w) - 1
				b = K(w, k)
			} else {
				return K(w, 0)
			}
		}
		if a.op == OpConst {
			switch op {
			case OpShl:
				return K(w, a.val<<k)
			case OpLshr:
				return K(w, a.val>>k)
			case OpAshr:
				return K(w, uint64(sext64(a.val, w)>>k))
			}
		}
		switch op {
		case OpShl:
			return ts.Concat(ts.Extract(a, w-1-uint8(k), 0), K(uint8(k), 0))
		case OpLshr:
			return ts.Zext(ts.Extract(a, w-1, uint8(k)), w)
		case OpAshr:
			return ts.Sext(ts.Extract(a, w-1, uint8(k)), w)
		}
	}
	return ts.mk(op, w, 0, 0, a, b, nil)
}

func (ts *Terms) Hex(n *Term) *Term {
	if n.op == OpConst {
		return K(8, uint64(hexDigits[n.val]))
	}
	return ts.mk(OpHex, 8, 0, 0, n, nil, nil)
}

// EqBytes returns the equality of two equally long byte vectors.
func (ts *Terms) EqBytes(a, b []*Term) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	if len(a) > 2 && len(a)%2 == 0 {
		// both are hexadecimal texts
		if x, ok := unhexAll(a); ok {
			if y, ok := unhexAll(b); ok {
				return ts.EqBytes(x, y)
			}
		}
	}
	if len(a) >= 64 && ts.hashOf != nil {
		// digests are equal exactly when their data is
		if x := ts.hashOf(a[:64]); x != nil {
			if y := ts.hashOf(b[:64]); y != nil {
				return ts.And(ts.EqBytes(x.in, y.in), ts.EqBytes(a[64:], b[64:]))
			}
		}
	}
	res := tTrue
	i := 0
	for i < len(a) {
		if a[i].op == OpConst && b[i].op == OpConst {
			if a[i].val != b[i].val {
				return tFalse
			}
			i++
			continue
		}
		// two hexadecimal digits of one byte
		if i+1 < len(a) {
			x, ok1 := hexPair(a[i], a[i+1])
			y, ok2 := hexPair(b[i], b[i+1])
			if ok1 && ok2 {
				res = ts.And(res, ts.Eq(x, y))
				i += 2
				continue
			}
		}
		// fuse into words
		j := i
		x, y := a[i], b[i]
		for j+1 < len(a) && x.w < 64 && fusable(a[j], a[j+1]) && fusable(b[j], b[j+1]) {
			j++
			x = ts.Concat(x, a[j])
			y = ts.Concat(y, b[j])
		}
		res = ts.And(res, ts.Eq(x, y))
		i = j + 1
	}
	return res
}

func unhexAll(a []*Term) ([]*Term, bool) {
	res := make([]*Term, len(a)/2)
	for i := range res {
		t, ok := hexPair(a[2*i], a[2*i+1])
		if !ok {
			return nil, false
		}
		res[i] = t
	}
	return res, true
}

func fusable(x, y *Term) bool {
	if x.op == OpConst && y.op == OpConst {
		return true
	}
	return x.op == OpExtract && y.op == OpExtract && x.a == y.a && x.lo == y.hi+1
}

func hexPair(h, l *Term) (*Term, bool) {
	if h.op == OpConst && l.op == OpConst {
		a, b := unhexLower(h.val), unhexLower(l.val)
		if a < 0 || b < 0 {
			return nil, false
		}
		return K(8, uint64(a<<4|b)), true
	}
	if h.op == OpHex && l.op == OpHex {
		x, y := h.a, l.a
		if x.op == OpExtract && y.op == OpExtract && x.a == y.a && x.lo == y.hi+1 {
			if x.hi == 7 && y.lo == 0 && x.a.w == 8 {
				return x.a, true
			}
		}
	}
	return nil, false
}

// eval evaluates t under the current model (var.val holds the model value).
func (ts *Terms) eval(t *Term, ver int32) uint64 {
	switch t.op {
	case OpConst, OpVar:
		return t.val
	}
	if t.evalVer == ver {
		return t.evalVal
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = 1 - ts.eval(t.a, ver)
	case OpAnd:
		r = ts.eval(t.a, ver)
		if r != 0 {
			r = ts.eval(t.b, ver)
		}
	case OpOr:
		r = ts.eval(t.a, ver)
		if r == 0 {
			r = ts.eval(t.b, ver)
		}
	case OpIte:
		if ts.eval(t.a, ver) != 0 {
			r = ts.eval(t.b, ver)
		} else {
			r = ts.eval(t.c, ver)
		}
	case OpExtract:
		r = ts.eval(t.a, ver) >> t.lo
	case OpZext:
		r = ts.eval(t.a, ver)
	case OpSext:
		r = uint64(sext64(ts.eval(t.a, ver), t.a.w))
	case OpBvNot:
		r = ^ts.eval(t.a, ver)
	case OpNeg:
		r = -ts.eval(t.a, ver)
	case OpHex:
		r = uint64(hexDigits[ts.eval(t.a, ver)])
	default:
		x, y := ts.eval(t.a, ver), ts.eval(t.b, ver)
		w := t.a.w
		switch t.op {
		case OpEq:
			r = b2u(x == y)
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sext64(x, w) < sext64(y, w))
		case OpSle:
			r = b2u(sext64(x, w) <= sext64(y, w))
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUdiv:
			if y == 0 {
				r = mask(w)
			} else {
				r = x / y
			}
		case OpUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSdiv, OpSrem:
			sx, sy := sext64(x, w), sext64(y, w)
			if t.op == OpSdiv {
				switch {
				case sy == 0:
					if sx < 0 {
						r = 1
					} else {
						r = mask(w)
					}
				case sy == -1:
					r = uint64(-sx)
				default:
					r = uint64(sx / sy)
				}
			} else {
				switch {
				case sy == 0:
					r = x
				case sy == -1:
					r = 0
				default:
					r = uint64(sx % sy)
				}
			}
		case OpBvAnd:
			r = x & y
		case OpBvOr:
			r = x | y
		case OpBvXor:
			r = x ^ y
		case OpShl:
			if y < 64 {
				r = x << y
			}
		case OpLshr:
			if y < 64 {
				r = x >> y
			}
		case OpAshr:
			if y > 63 {
				y = 63
			}
			r = uint64(sext64(x, w) >> y)
		case OpConcat:
			r = x<<t.b.w | y
		default:
			panic("eval: " + opNames[t.op])
		}
	}
	if t.w != 0 {
		r &= mask(t.w)
	}
	t.evalVer = ver
	t.evalVal = r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func smtConst(w uint8, v uint64) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return smtConst(t.w, t.val)
	case OpVar:
		return "v" + strconv.Itoa(int(t.id))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

// emit writes the definitions needed for t (once per emission version).
func emit(t *Term, ver int32, sb *strings.Builder) {
	if t.op == OpConst || t.emitVer == ver {
		return
	}
	t.emitVer = ver
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		return
	}
	if t.a != nil {
		emit(t.a, ver, sb)
	}
	if t.b != nil {
		emit(t.b, ver, sb)
	}
	if t.c != nil {
		emit(t.c, ver, sb)
	}
	sb.WriteString("(define-fun ")
	sb.WriteString(t.ref())
	sb.WriteString(" () ")
	sb.WriteString(sortName(t.w))
	sb.WriteByte(' ')
	switch t.op {
	case OpExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.hi, t.lo, t.a.ref())
	case OpZext:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpHex:
		fmt.Fprintf(sb, "(let ((n ((_ zero_extend 4) %s))) (ite (bvult n #x0a) (bvadd n #x30) (bvadd n #x57)))", t.a.ref())
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(x.ref())
			}
		}
		sb.WriteByte(')')
	}
	sb.WriteString(")\n")
}
