package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var intrinsics map[string]intrinsic

func concStr(in *Interp, v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	if s, ok := v.(*symStr); ok {
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(in.p.concretize(t, "string byte"))
		}
		return string(b)
	}
	panic(pathAbort{abUnsupported, "concrete string expected"})
}

func scalar(w uint8, kind string) intrinsic {
	return func(in *Interp, args []value) value {
		return in.p.input(concStr(in, args[0]), w, kind)
	}
}

func (p *Path) input(name string, w uint8, kind string) *Term {
	t := p.newVar(name, w)
	p.inputs = append(p.inputs, input{name, t, kind})
	return t
}

func init() {
	intrinsics = map[string]intrinsic{
		"time.runtimeNano": func(in *Interp, args []value) value { return K(64, 1) },
		"time.runtimeNow":  func(in *Interp, args []value) value { panic(pathAbort{abUnsupported, "clock"}) },
		// ---- harness interface ("$" is the harness module prefix)
		"$/sym.Byte":   scalar(8, "u8"),
		"$/sym.Uint8":  scalar(8, "u8"),
		"$/sym.Uint16": scalar(16, "u16"),
		"$/sym.Uint32": scalar(32, "u32"),
		"$/sym.Uint64": scalar(64, "u64"),
		"$/sym.Uint":   scalar(64, "u64"),
		"$/sym.Int64":  scalar(64, "i64"),
		"$/sym.Int":    scalar(64, "i64"),
		"$/sym.Bool": func(in *Interp, args []value) value {
			t := in.p.newVar(concStr(in, args[0]), 1)
			in.p.inputs = append(in.p.inputs, input{concStr(in, args[0]), t, "bool"})
			return in.p.ts.Eq(t, K(1, 1))
		},
		"$/sym.Bytes": func(in *Interp, args []value) value {
			n := int(in.p.concretize(args[1].(*Term), "length"))
			name := concStr(in, args[0])
			s := make([]value, n)
			for i := range s {
				s[i] = in.p.input(fmt.Sprintf("%s[%d]", name, i), 8, "u8")
			}
			return s
		},
		"$/sym.Choice": func(in *Interp, args []value) value {
			n := in.p.concretize(args[1].(*Term), "choice bound")
			t := in.p.input(concStr(in, args[0]), 64, "choice")
			in.p.assume(in.p.ts.Ult(t, K(64, n)))
			return K(64, in.p.concretize(t, "choice"))
		},
		"$/sym.Concrete": func(in *Interp, args []value) value {
			return K(64, in.p.concretize(args[0].(*Term), "harness value"))
		},
		"$/sym.Once":   func(in *Interp, args []value) value { return in.once(args[0]) },
		"$/sym.CoNew": func(in *Interp, args []value) value { return K(64, uint64(in.coNew(args[0]))) },
		"$/sym.CoResume": func(in *Interp, args []value) value {
			return B(in.coResume(int(in.p.concretize(args[0].(*Term), "thread of control"))))
		},
		"$/sym.CoYield":   func(in *Interp, args []value) value { in.coYield(); return nil },
		"$/sym.CoCurrent": func(in *Interp, args []value) value { return K(64, uint64(int64(in.curCo-1))) },
		"$/sym.Assume": func(in *Interp, args []value) value { in.p.assume(args[0].(*Term)); return nil },
		"$/sym.Assert": func(in *Interp, args []value) value {
			in.p.assert(args[0].(*Term), concStr(in, args[1]))
			return nil
		},
		"$/sym.Fail": func(in *Interp, args []value) value {
			in.p.assert(tFalse, concStr(in, args[0]))
			return nil
		},
		"$/sym.Reach": func(in *Interp, args []value) value {
			l := concStr(in, args[0])
			if !in.p.reach[l] {
				in.p.reach[l] = true
				in.p.reachL = append(in.p.reachL, l)
			}
			return nil
		},
		"$/sym.Observe": func(in *Interp, args []value) value {
			o := obs{label: concStr(in, args[0])}
			o.vals = append(o.vals, args[1])
			in.p.obs = append(in.p.obs, o)
			return nil
		},
		"$/sym.Stop": func(in *Interp, args []value) value { in.p.abort(abStop, "harness stop"); return nil },
		"$/sym.And": func(in *Interp, args []value) value {
			return in.p.ts.And(args[0].(*Term), args[1].(*Term))
		},
		"$/sym.Or": func(in *Interp, args []value) value {
			return in.p.ts.Or(args[0].(*Term), args[1].(*Term))
		},
		"$/sym.EqBytes": func(in *Interp, args []value) value {
			a, b := args[0].([]value), args[1].([]value)
			if len(a) != len(b) {
				return tFalse
			}
			return in.p.ts.EqBytes(bytesOf(a), bytesOf(b))
		},
		"$/sym.IteInt": func(in *Interp, args []value) value {
			return in.p.ts.Ite(args[0].(*Term), args[1].(*Term), args[2].(*Term))
		},
		"$/sym.Param": func(in *Interp, args []value) value {
			if v, ok := in.p.params[concStr(in, args[0])]; ok {
				return K(64, uint64(int64(v)))
			}
			return args[1]
		},
		"$/sym.Symbolic": func(in *Interp, args []value) value { return tTrue },
		"$/shim.sha512": func(in *Interp, args []value) value {
			return array(toSlice(in.p.sha512(bytesOf(args[0]))))
		},
		"$/shim.sortSwap": func(in *Interp, args []value) value {
			s := args[0].(iface).v.([]value)
			i := in.p.concretize(args[1].(*Term), "index")
			j := in.p.concretize(args[2].(*Term), "index")
			s[i], s[j] = s[j], s[i]
			return nil
		},
		"$/shim.sliceLen": func(in *Interp, args []value) value {
			return K(64, uint64(len(args[0].(iface).v.([]value))))
		},

		// ---- bytes
		"bytes.Equal": func(in *Interp, args []value) value {
			a, b := args[0].([]value), args[1].([]value)
			if len(a) != len(b) {
				return tFalse
			}
			return in.p.ts.EqBytes(bytesOf(a), bytesOf(b))
		},
		"bytes.Compare":            bytesCompare,
		"internal/bytealg.Compare": bytesCompare,
		"internal/bytealg.MakeNoZero": func(in *Interp, args []value) value {
			n := in.allocSize(args[0].(*Term), basicInfo{'i', 64, true})
			s := make([]value, n)
			for i := range s {
				s[i] = constTab[8][0]
			}
			return s
		},
		"internal/bytealg.IndexByte": func(in *Interp, args []value) value {
			return in.indexByte(bytesOf(args[0]), args[1].(*Term))
		},
		"internal/bytealg.IndexByteString": func(in *Interp, args []value) value {
			return in.indexByte(strBytes(args[0]), args[1].(*Term))
		},
		"internal/bytealg.Count": func(in *Interp, args []value) value {
			return in.countByte(bytesOf(args[0]), args[1].(*Term))
		},
		"internal/bytealg.CountString": func(in *Interp, args []value) value {
			return in.countByte(strBytes(args[0]), args[1].(*Term))
		},
		"internal/abi.NoEscape":                     func(in *Interp, args []value) value { return args[0] },
		"internal/abi.Escape":                       func(in *Interp, args []value) value { return args[0] },
		"internal/race.Enable":                      nop,
		"internal/race.Disable":                     nop,
		"runtime.KeepAlive":                         nop,
		"runtime.GC":                                nop,
		"internal/godebug.New":                      func(in *Interp, args []value) value { return (*value)(nil) },
		"(*internal/godebug.Setting).Value":         func(in *Interp, args []value) value { return "" },
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"(*sync.Mutex).Lock":                        nop,
		"(*sync.Mutex).Unlock":                      nop,
		"(*sync.Mutex).TryLock":                     func(in *Interp, args []value) value { return tTrue },
		"(*sync.RWMutex).Lock":                      nop,
		"(*sync.RWMutex).Unlock":                    nop,
		"(*sync.RWMutex).RLock":                     nop,
		"(*sync.RWMutex).RUnlock":                   nop,

		// ---- encoding/binary
		"(encoding/binary.littleEndian).Uint16": getLE(2),
		"(encoding/binary.littleEndian).Uint32": getLE(4),
		"(encoding/binary.littleEndian).Uint64": getLE(8),
		"(encoding/binary.bigEndian).Uint16":    getBE(2),
		"(encoding/binary.bigEndian).Uint32":    getBE(4),
		"(encoding/binary.bigEndian).Uint64":    getBE(8),

		// ---- fmt
		"fmt.Sprintf": func(in *Interp, args []value) value { return in.sprintf(args[0], args[1].([]value)) },
		"fmt.Sprint": func(in *Interp, args []value) value {
			return in.sprintf(strings.Repeat("%v", len(args[0].([]value))), args[0].([]value))
		},
		"fmt.Errorf": func(in *Interp, args []value) value {
			a := args[1].([]value)
			if f, ok := args[0].(string); ok && strings.Contains(f, "%w") {
				n := strings.Index(f, "%w")
				k := strings.Count(strings.ReplaceAll(f[:n], "%%", ""), "%")
				msg := in.sprintf(strings.Replace(f, "%w", "%v", 1), a)
				wt := in.P.pkg("fmt").Pkg.Scope().Lookup("wrapError").Type()
				var s value = structure{msg, a[k]}
				return iface{t: types.NewPointer(wt), v: &s}
			}
			return in.mkError(in.sprintf(args[0], a))
		},
		"fmt.Println":  nopN(2),
		"fmt.Printf":   nopN(2),
		"fmt.Print":    nopN(2),
		"fmt.Fprintf":  nopN(2),
		"fmt.Fprintln": nopN(2),
		"log.Println":  nop,
		"log.Printf":   nop,

		"encoding/hex.EncodeToString": func(in *Interp, args []value) value {
			return mkStr(in.hexBytes(bytesOf(args[0]), false))
		},
		"strconv.Itoa":          func(in *Interp, args []value) value { return in.decimal(args[0].(*Term), true) },
		"strconv.FormatInt":     formatInt(true),
		"strconv.FormatUint":    formatInt(false),
		"(reflect.Value).IsNil": nil,
	}
	delete(intrinsics, "(reflect.Value).IsNil")
}

func nop(in *Interp, args []value) value { return nil }
func nopN(n int) intrinsic {
	return func(in *Interp, args []value) value { return tuple{constTab[64][0], iface{}} }
}

func bytesCompare(in *Interp, args []value) value {
	a, b := bytesOf(args[0]), bytesOf(args[1])
	ts := in.p.ts
	var eq *Term
	if len(a) == len(b) {
		eq = ts.EqBytes(a, b)
	} else {
		eq = tFalse
	}
	if eq == tTrue {
		return constTab[64][0]
	}
	less := in.p.lexLess(a, b)
	return ts.Ite(eq, K(64, 0), ts.Ite(less, K(64, ^uint64(0)), K(64, 1)))
}

func (in *Interp) indexByte(b []*Term, c *Term) value {
	for i, t := range b {
		if in.p.branch(in.p.ts.Eq(t, c)) {
			return K(64, uint64(i))
		}
	}
	return K(64, ^uint64(0))
}

func (in *Interp) countByte(b []*Term, c *Term) value {
	n := 0
	for _, t := range b {
		if in.p.branch(in.p.ts.Eq(t, c)) {
			n++
		}
	}
	return K(64, uint64(n))
}

func getLE(n int) intrinsic {
	return func(in *Interp, args []value) value {
		s := args[len(args)-1].([]value)
		if len(s) < n {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", n-1, len(s)))
		}
		r := s[n-1].(*Term)
		for i := n - 2; i >= 0; i-- {
			r = in.p.ts.Concat(r, s[i].(*Term))
		}
		return r
	}
}

func getBE(n int) intrinsic {
	return func(in *Interp, args []value) value {
		s := args[len(args)-1].([]value)
		if len(s) < n {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", n-1, len(s)))
		}
		r := s[0].(*Term)
		for i := 1; i < n; i++ {
			r = in.p.ts.Concat(r, s[i].(*Term))
		}
		return r
	}
}

func (in *Interp) hexBytes(b []*Term, upper bool) []*Term {
	out := make([]*Term, 0, 2*len(b))
	for _, t := range b {
		if upper && t.op != OpConst {
			in.p.abort(abUnsupported, "upper-case hexadecimal of symbolic data")
		}
		h, l := in.p.ts.Extract(t, 7, 4), in.p.ts.Extract(t, 3, 0)
		out = append(out, in.p.ts.Hex(h), in.p.ts.Hex(l))
	}
	if upper {
		for i, t := range out {
			out[i] = K(8, uint64(strings.ToUpper(string(rune(t.val)))[0]))
		}
	}
	return out
}

// decimal renders a symbolic integer: one path per sign and digit count.
func (in *Interp) decimal(t *Term, signed bool) value {
	ts := in.p.ts
	if t.op == OpConst {
		if signed {
			return strconv.FormatInt(sext64(t.val, t.w), 10)
		}
		return strconv.FormatUint(t.val, 10)
	}
	var out []*Term
	w := t
	if signed {
		w = ts.Sext(t, 64)
		if in.p.branch(ts.Slt(w, K(64, 0))) {
			out = append(out, K(8, '-'))
			w = ts.Neg(w)
		}
	} else {
		w = ts.Zext(t, 64)
	}
	n := 1
	pow := uint64(10)
	for n < 20 {
		if in.p.branch(ts.Ult(w, K(64, pow))) {
			break
		}
		n++
		if n < 20 {
			pow *= 10
		}
	}
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= 10
	}
	for i := 0; i < n; i++ {
		d := ts.Div(OpUrem, ts.Div(OpUdiv, w, K(64, div)), K(64, 10))
		out = append(out, ts.arith(OpAdd, ts.Extract(d, 7, 0), K(8, '0')))
		div /= 10
	}
	return mkStr(out)
}

func formatInt(signed bool) intrinsic {
	return func(in *Interp, args []value) value {
		base := in.p.concretize(args[1].(*Term), "number base")
		t := args[0].(*Term)
		if t.op == OpConst {
			if signed {
				return strconv.FormatInt(sext64(t.val, t.w), int(base))
			}
			return strconv.FormatUint(t.val, int(base))
		}
		if base != 10 {
			in.p.abort(abUnsupported, "symbolic number in base %d", base)
		}
		return in.decimal(t, signed)
	}
}

// sprintf is exact for concrete arguments and for %x, %d, %s of symbolic data; otherwise the text is opaque.
func (in *Interp) sprintf(format value, args []value) value {
	fs, ok := format.(string)
	if !ok {
		return &opaqueStr{hint: "format"}
	}
	var out []*Term
	ai := 0
	lit := func(s string) {
		out = append(out, strBytes(s)...)
	}
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = append(out, K(8, uint64(fs[i])))
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			return &opaqueStr{hint: fs}
		}
		verb := fs[j]
		spec := fs[i : j+1]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(rune(verb)) + "(MISSING)")
			continue
		}
		a := args[ai].(iface)
		ai++
		if nv, ok := in.toNative(a); ok {
			lit(fmt.Sprintf(spec, nv))
			continue
		}
		if len(spec) != 2 {
			return &opaqueStr{hint: fs}
		}
		switch v := a.v.(type) {
		case *symStr:
			switch verb {
			case 's', 'v':
				out = append(out, v.b...)
				continue
			case 'x':
				out = append(out, in.hexBytes(v.b, false)...)
				continue
			}
		case []value:
			if el, ok := a.t.Underlying().(*types.Slice); ok && basicOf(el.Elem()).w == 8 && in.stringer(a) == nil {
				switch verb {
				case 'x':
					out = append(out, in.hexBytes(bytesOf(v), false)...)
					continue
				case 's':
					out = append(out, bytesOf(v)...)
					continue
				}
			}
		case *Term:
			bi := basicOf(a.t)
			if bi.kind == 'i' && (verb == 'd' || verb == 'v') {
				if in.inErrorText(fs) {
					return &opaqueStr{hint: fs}
				}
				out = append(out, strBytes(in.decimal(v, bi.signed))...)
				continue
			}
		}
		return &opaqueStr{hint: fs}
	}
	if ai < len(args) {
		return &opaqueStr{hint: fs}
	}
	return mkStr(out)
}

// inErrorText keeps symbolic numbers inside prose (error messages) opaque instead of forking over digits.
func (in *Interp) inErrorText(fs string) bool { return strings.Contains(fs, " ") }

func (in *Interp) stringer(a iface) *ssa.Function {
	if a.t == nil {
		return nil
	}
	ms := in.P.prog.MethodSets.MethodSet(a.t)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		if n == "String" || n == "Error" {
			sg := ms.At(i).Type().(*types.Signature)
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 {
				return in.P.prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// toNative converts a concrete interface value for use with the real fmt.
func (in *Interp) toNative(a iface) (interface{}, bool) {
	if a.t == nil {
		return nil, true
	}
	if f := in.stringer(a); f != nil {
		if pv, ok := a.v.(*value); ok && pv == nil {
			return nil, true
		}
		r := in.call(f, []value{copyVal(a.v)}, nil)
		s, ok := r.(string)
		if ok {
			return s, true
		}
		return nil, false
	}
	switch v := a.v.(type) {
	case string:
		return v, true
	case *Term:
		if v.op != OpConst {
			return nil, false
		}
		bi := basicOf(a.t)
		if bi.kind == 'b' {
			return v.val != 0, true
		}
		if bi.signed {
			x := sext64(v.val, v.w)
			if bi.w == 32 {
				return int32(x), true
			}
			return x, true
		}
		if bi.w == 8 {
			return uint8(v.val), true
		}
		return v.val, true
	case float64:
		return v, true
	case []value:
		el, ok := a.t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		eb := basicOf(el.Elem())
		if eb.kind == 'i' && eb.w == 8 {
			b, ok := constBytes(bytesOf(v))
			return b, ok
		}
		if eb.kind == 's' {
			var r []string
			for _, x := range v {
				s, ok := x.(string)
				if !ok {
					return nil, false
				}
				r = append(r, s)
			}
			return r, true
		}
		return nil, false
	}
	return nil, false
}

// natives are pure library functions executed directly when every argument is concrete.
var natives = map[string]interface{}{
	"strings.Contains": strings.Contains, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
	"strings.Join": strings.Join, "strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.Fields": strings.Fields, "strings.EqualFold": strings.EqualFold, "strings.Count": strings.Count,
	"strings.IndexByte": strings.IndexByte, "strings.Compare": strings.Compare, "strings.Title": strings.Title,
	"strconv.Quote": strconv.Quote, "strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
	"strconv.ParseBool": strconv.ParseBool, "strconv.FormatBool": strconv.FormatBool, "strconv.ParseFloat": strconv.ParseFloat,
	"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext,
	"path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString,
	"encoding/hex.DecodeString": hex.DecodeString,
	"math.Log2":                 math.Log2, "math.Log": math.Log, "math.Log10": math.Log10, "math.Pow": math.Pow, "math.Ceil": math.Ceil, "math.Floor": math.Floor,
	"math.Sqrt": math.Sqrt, "math.Abs": math.Abs, "math.Max": math.Max, "math.Min": math.Min, "math.Mod": math.Mod, "math.Round": math.Round,
	"math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf, "math.Float64bits": math.Float64bits, "math.Trunc": math.Trunc, "math.Exp2": math.Exp2,
	"math/bits.Len64": nil,
}

func nativeIntrinsic(name string, fn *ssa.Function) intrinsic {
	nf, ok := natives[name]
	if !ok || nf == nil {
		return nil
	}
	rv := reflect.ValueOf(nf)
	rt := rv.Type()
	sig := fn.Signature
	return func(in *Interp, args []value) value {
		cargs := make([]reflect.Value, 0, len(args))
		for i, a := range args {
			v, ok := toReflect(a, rt.In(i))
			if !ok {
				return fallThrough{}
			}
			cargs = append(cargs, v)
		}
		var outs []reflect.Value
		if rt.IsVariadic() {
			outs = rv.CallSlice(cargs)
		} else {
			outs = rv.Call(cargs)
		}
		res := make(tuple, len(outs))
		for i, o := range outs {
			res[i] = in.fromReflect(o, sig.Results().At(i).Type())
		}
		if len(res) == 1 {
			return res[0]
		}
		return res
	}
}

func toReflect(v value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := v.(string)
		return reflect.ValueOf(s), ok
	case reflect.Float64:
		x, ok := v.(float64)
		return reflect.ValueOf(x), ok
	case reflect.Slice:
		s, ok := v.([]value)
		if !ok {
			return reflect.Value{}, false
		}
		r := reflect.MakeSlice(t, len(s), len(s))
		for i, e := range s {
			x, ok := toReflect(e, t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(x)
		}
		return r, true
	}
	tm, ok := v.(*Term)
	if !ok || tm.op != OpConst {
		return reflect.Value{}, false
	}
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		r.SetBool(tm.val != 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		r.SetInt(sext64(tm.val, tm.w))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		r.SetUint(tm.val)
	default:
		return r, false
	}
	return r, true
}

func (in *Interp) fromReflect(v reflect.Value, t types.Type) value {
	bi := basicOf(t)
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Float64, reflect.Float32:
		return v.Float()
	case reflect.Bool:
		return B(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return K(bi.w, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return K(bi.w, v.Uint())
	case reflect.Slice:
		if v.IsNil() {
			return []value(nil)
		}
		el := t.Underlying().(*types.Slice).Elem()
		s := make([]value, v.Len())
		for i := range s {
			s[i] = in.fromReflect(v.Index(i), el)
		}
		return s
	case reflect.Interface:
		if v.IsNil() {
			return iface{}
		}
		if e, ok := v.Interface().(error); ok {
			return in.mkError(e.Error())
		}
	}
	panic(pathAbort{abUnsupported, fmt.Sprintf("result of kind %s", v.Kind())})
}

var _ = errors.New
