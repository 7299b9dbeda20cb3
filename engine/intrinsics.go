package main

// Models of runtime, synchronisation, formatting and reflection primitives.
// Everything else in the standard library is executed from its source.

import (
	"go/types"
	"math"
	"math/bits"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(fr *frame, a []value) value

var intrinsics = map[string]intrinsic{}

func hostStack() string { return string(debug.Stack()) }

func reg(names string, f intrinsic) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = f
	}
}

func nop(fr *frame, a []value) value { return nil }

func (m *Machine) mkError(msg value) iface {
	p := new(value)
	*p = structure{msg}
	return iface{m.prog.errorStringPtr, p}
}

func i64(v int64) *Term { return BV(64, uint64(v)) }

// ---------- formatting ----------

func (m *Machine) fmtValue(fr *frame, verb byte, v iface, depth int) value {
	if v.t == nil {
		if verb == 'v' || verb == 's' || verb == 'w' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if (verb == 'v' || verb == 's' || verb == 'w' || verb == 'q') && depth < 8 {
		if s, ok := m.stringerText(fr, v); ok {
			return s
		}
	}
	switch u := v.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if verb == 'q' {
				if s, ok := v.v.(string); ok {
					return strconv.Quote(s)
				}
			}
			return v.v
		}
		if u.Info()&types.IsBoolean != 0 {
			return strconv.FormatBool(m.branch(v.v.(*Term)))
		}
		if t, ok := v.v.(*Term); ok {
			if isFloat(v.t) {
				if t.isConst() {
					return strconv.FormatFloat(fpval(t), 'g', -1, 64)
				}
				return "<float>"
			}
			return m.fmtInt(fr, verb, t, isSigned(v.t))
		}
	case *types.Pointer:
		if p, ok := v.v.(*value); ok && p != nil && depth == 0 {
			if _, ok := u.Elem().Underlying().(*types.Struct); ok {
				return strConcat("&", m.fmtValue(fr, verb, iface{u.Elem(), *p}, depth+1))
			}
		}
		return "0xc000012345"
	case *types.Struct:
		if depth > 4 {
			return "{...}"
		}
		var r value = "{"
		for i, f := range v.v.(structure) {
			if i > 0 {
				r = strConcat(r, " ")
			}
			r = strConcat(r, m.fmtField(fr, verb, u.Field(i).Type(), f, depth))
		}
		return strConcat(r, "}")
	case *types.Slice:
		if depth > 4 {
			return "[...]"
		}
		if eb, ok := u.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 && verb == 's' {
			return m.convert(v.t, types.Typ[types.String], v.v)
		}
		var r value = "["
		for i, e := range v.v.([]value) {
			if i > 0 {
				r = strConcat(r, " ")
			}
			if i > 20 {
				r = strConcat(r, "...")
				break
			}
			r = strConcat(r, m.fmtField(fr, verb, u.Elem(), e, depth))
		}
		return strConcat(r, "]")
	case *types.Array:
		var r value = "["
		for i, e := range v.v.(array) {
			if i > 0 {
				r = strConcat(r, " ")
			}
			if i > 20 {
				break
			}
			r = strConcat(r, m.fmtField(fr, verb, u.Elem(), e, depth))
		}
		return strConcat(r, "]")
	}
	return "<" + v.t.String() + ">"
}

func (m *Machine) fmtField(fr *frame, verb byte, t types.Type, f value, depth int) value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return m.fmtValue(fr, verb, f.(iface), depth+1)
	}
	// fields do not call methods unless exported; approximate by calling them
	return m.fmtValue(fr, verb, iface{t, f}, depth+1)
}

func (m *Machine) stringerText(fr *frame, v iface) (value, bool) {
	if o, ok := v.v.(opaque); ok && o.kind == "rtype" {
		return o.data.(types.Type).String(), true
	}
	for _, name := range []string{"Error", "String"} {
		fn := m.prog.methodByName(v.t, name)
		if fn == nil {
			continue
		}
		sig := fn.Signature
		if sig.Params().Len() != 0 || sig.Results().Len() != 1 || !isString(sig.Results().At(0).Type()) {
			continue
		}
		if p, ok := v.v.(*value); ok && p == nil {
			return "<nil>", true
		}
		return m.callInfo(fr, m.prog.info(fn), []value{v.v}, nil), true
	}
	return nil, false
}

// fmtInt renders an integer; symbolic ones become a marker unless precise formatting is on.
func (m *Machine) fmtInt(fr *frame, verb byte, t *Term, signed bool) value {
	base := 10
	switch verb {
	case 'x', 'X':
		base = 16
	case 'o':
		base = 8
	case 'b':
		base = 2
	case 'c':
		return string(rune(m.concretize(m.ext(t, 64, signed), "%c")))
	}
	if t.isConst() {
		var s string
		if signed {
			s = strconv.FormatInt(sx(t.val, t.w), base)
		} else {
			s = strconv.FormatUint(t.val, base)
		}
		if verb == 'X' {
			s = strings.ToUpper(s)
		}
		return s
	}
	if m.opts["exactfmt"] == 0 || base != 10 {
		return "<sym>"
	}
	name := "FormatUint"
	if signed {
		name = "FormatInt"
	}
	fn := m.prog.funcByName("strconv", name)
	if fn == nil {
		return "<sym>"
	}
	return m.callInfo(fr, m.prog.info(fn), []value{m.ext(t, 64, signed), BV(64, 10)}, nil)
}

func (m *Machine) sprintf(fr *frame, format value, args []value, wrapped *[]iface) value {
	f, ok := format.(string)
	if !ok {
		return format
	}
	var r value = ""
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = strConcat(r, f[i:])
			break
		}
		r = strConcat(r, f[i:i+j])
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			r = strConcat(r, "%!(NOVERB)")
			break
		}
		flags := f[st:i]
		verb := f[i]
		i++
		if verb == '%' {
			r = strConcat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = strConcat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		v := args[ai].(iface)
		ai++
		if verb == 'w' && wrapped != nil {
			if v.t != nil && m.prog.methodByName(v.t, "Error") != nil {
				*wrapped = append(*wrapped, v)
			}
		}
		if verb == 'T' {
			if v.t == nil {
				r = strConcat(r, "<nil>")
			} else {
				r = strConcat(r, types.TypeString(v.t, func(p *types.Package) string { return p.Name() }))
			}
			continue
		}
		s := m.fmtValue(fr, verb, v, 0)
		if wdt := strings.TrimLeft(flags, "+-# 0"); wdt != "" && !strings.Contains(wdt, ".") {
			n, _ := strconv.Atoi(wdt)
			for strLen(s) < n {
				switch {
				case strings.Contains(flags, "-"):
					s = strConcat(s, " ")
				case strings.HasPrefix(flags, "0"):
					s = strConcat("0", s)
				default:
					s = strConcat(" ", s)
				}
			}
		}
		r = strConcat(r, s)
	}
	return r
}

func (m *Machine) sprint(fr *frame, args []value, ln bool) value {
	var r value = ""
	for i, a := range args {
		v := a.(iface)
		if i > 0 {
			addSp := ln
			if !ln {
				p := args[i-1].(iface)
				addSp = !(v.t != nil && isString(v.t)) && !(p.t != nil && isString(p.t))
			}
			if addSp {
				r = strConcat(r, " ")
			}
		}
		r = strConcat(r, m.fmtValue(fr, 'v', v, 0))
	}
	if ln {
		r = strConcat(r, "\n")
	}
	return r
}

func (m *Machine) strToBytes(s value) []value {
	b := strBytes(s)
	out := make([]value, len(b))
	for i := range b {
		out[i] = b[i]
	}
	return out
}

func sliceArg(v value) []value {
	s, _ := v.([]value)
	return s
}

func init() {
	reg("fmt.Sprintf", func(fr *frame, a []value) value {
		old := fr.m.opts["exactfmt"]
		fr.m.opts["exactfmt"] = 1
		r := fr.m.sprintf(fr, a[0], sliceArg(a[1]), nil)
		fr.m.opts["exactfmt"] = old
		return r
	})
	reg("fmt.Sprint", func(fr *frame, a []value) value {
		old := fr.m.opts["exactfmt"]
		fr.m.opts["exactfmt"] = 1
		r := fr.m.sprint(fr, sliceArg(a[0]), false)
		fr.m.opts["exactfmt"] = old
		return r
	})
	reg("fmt.Sprintln", func(fr *frame, a []value) value { return fr.m.sprint(fr, sliceArg(a[0]), true) })
	reg("fmt.Errorf", func(fr *frame, a []value) value {
		m := fr.m
		var wr []iface
		s := m.sprintf(fr, a[0], sliceArg(a[1]), &wr)
		switch {
		case len(wr) == 0 || m.prog.wrapErrorPtr == nil:
			return m.mkError(s)
		case len(wr) == 1:
			p := new(value)
			*p = structure{s, wr[0]}
			return iface{m.prog.wrapErrorPtr, p}
		}
		es := make([]value, len(wr))
		for i := range wr {
			es[i] = wr[i]
		}
		p := new(value)
		*p = structure{s, es}
		return iface{m.prog.wrapErrorsPtr, p}
	})
	pr := func(fr *frame, a []value) value { return tuple{BV(64, 0), iface{}} }
	reg("fmt.Print fmt.Printf fmt.Println", pr)
	fpr := func(kind int) intrinsic {
		return func(fr *frame, a []value) value {
			m := fr.m
			var s value
			switch kind {
			case 0:
				s = m.sprint(fr, sliceArg(a[1]), false)
			case 1:
				s = m.sprintf(fr, a[1], sliceArg(a[2]), nil)
			case 2:
				s = m.sprint(fr, sliceArg(a[1]), true)
			}
			w := a[0].(iface)
			if w.t == nil {
				m.nilDeref()
			}
			if w.t.String() == "*os.File" {
				return tuple{BV(64, uint64(strLen(s))), iface{}}
			}
			r, ok := m.callMethod(fr, w, "Write", m.strToBytes(s))
			if !ok {
				m.unsupported("Fprint to %v", w.t)
			}
			return r
		}
	}
	reg("fmt.Fprint", fpr(0))
	reg("fmt.Fprintf", fpr(1))
	reg("fmt.Fprintln", fpr(2))
	reg("log.Print log.Printf log.Println (*log.Logger).Print (*log.Logger).Printf (*log.Logger).Println log.SetFlags log.SetPrefix log.SetOutput", nop)
	reg("log.Fatal log.Fatalf log.Fatalln os.Exit", func(fr *frame, a []value) value {
		fr.m.stop("exit", "process exit at %s", fr.m.where())
		return nil
	})
	reg("log.Panic log.Panicln", func(fr *frame, a []value) value {
		fr.m.goPanic(iface{types.Typ[types.String], fr.m.sprint(fr, sliceArg(a[0]), false)})
		return nil
	})
	reg("log.Panicf", func(fr *frame, a []value) value {
		fr.m.goPanic(iface{types.Typ[types.String], fr.m.sprintf(fr, a[0], sliceArg(a[1]), nil)})
		return nil
	})

	// ---------- errors ----------
	reg("errors.Is", func(fr *frame, a []value) value {
		return Bool(fr.m.errorsIs(fr, a[0].(iface), a[1].(iface)))
	})
	reg("errors.As", func(fr *frame, a []value) value {
		return Bool(fr.m.errorsAs(fr, a[0].(iface), a[1].(iface)))
	})
	reg("errors.AsType", func(fr *frame, a []value) value { fr.m.unsupported("errors.AsType"); return nil })

	// ---------- reflect ----------
	reg("reflect.DeepEqual", func(fr *frame, a []value) value {
		m := fr.m
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return m.deepEqual(x.t, x.v, y.v, 0)
	})
	reg("reflect.TypeOf internal/reflectlite.TypeOf", func(fr *frame, a []value) value {
		v := a[0].(iface)
		if v.t == nil {
			return iface{}
		}
		return fr.m.mkRType(v.t)
	})

	// ---------- runtime-ish ----------
	reg("runtime.KeepAlive runtime.GC runtime.SetFinalizer runtime/debug.FreeOSMemory runtime/debug.SetGCPercent", nop)
	reg("runtime.Gosched", func(fr *frame, a []value) value { fr.m.yield("Gosched"); return nil })
	reg("runtime.NumGoroutine", func(fr *frame, a []value) value {
		n := 0
		for _, g := range fr.m.gs {
			if !g.done {
				n++
			}
		}
		return BV(64, uint64(n))
	})
	reg("runtime.GOMAXPROCS runtime.NumCPU", func(fr *frame, a []value) value { return BV(64, 8) })
	reg("runtime.Caller", func(fr *frame, a []value) value {
		return tuple{&opaquePtr, "file.go", BV(64, 1), tTrue}
	})
	reg("runtime.Goexit", func(fr *frame, a []value) value { fr.m.unsupported("Goexit"); return nil })
	reg("internal/abi.NoEscape internal/abi.Escape", func(fr *frame, a []value) value { return a[0] })
	reg("internal/godebug.New", func(fr *frame, a []value) value { p := new(value); *p = structure{}; return p })
	reg("(*internal/godebug.Setting).Value", func(fr *frame, a []value) value { return "" })
	reg("(*internal/godebug.Setting).IncNonDefault crypto/internal/fips140.setIndicator crypto/internal/fips140.setServiceIndicator", nop)
	reg("crypto/internal/fips140.getIndicator", func(fr *frame, a []value) value { return BV(8, 0) })

	// ---------- math ----------
	f1 := func(f func(*Machine, *Term) value) intrinsic {
		return func(fr *frame, a []value) value { return f(fr.m, a[0].(*Term)) }
	}
	reg("math.Float32frombits math.Float64frombits internal/strconv.float32frombits internal/strconv.float64frombits", f1(func(m *Machine, t *Term) value { return m.tt.FromBits(t) }))
	reg("math.Float32bits math.Float64bits internal/strconv.float32bits internal/strconv.float64bits", f1(func(m *Machine, t *Term) value {
		w := uint8(32)
		if t.w == FP64 {
			w = 64
		}
		if t.isConst() {
			return BV(w, t.val)
		}
		if t.op == OFromBits {
			return t.a
		}
		b := m.fresh("floatbits", w)
		m.choices = m.choices[:len(m.choices)-1]
		eq := m.tt.Or(m.tt.FCmp(OFEq, m.tt.FromBits(b), t), m.tt.And(m.tt.FIsNaN(t), m.tt.FIsNaN(m.tt.FromBits(b))))
		// distinguish zero signs
		m.assume(eq)
		return b
	}))
	reg("math.IsNaN", f1(func(m *Machine, t *Term) value { return m.tt.FIsNaN(t) }))
	reg("math.NaN", func(fr *frame, a []value) value { return FPc64(math.NaN()) })
	reg("math.Abs", f1(func(m *Machine, t *Term) value {
		return m.tt.Ite(m.tt.FCmp(OFLt, t, FPc64(0)), m.tt.FNeg(t), t)
	}))
	reg("math.Inf", func(fr *frame, a []value) value {
		return FPc64(math.Inf(int(int64(fr.m.concretize(a[0].(*Term), "inf")))))
	})
	fc := func(name string, f func(float64) float64) {
		reg(name, func(fr *frame, a []value) value {
			t := a[0].(*Term)
			if !t.isConst() {
				fr.m.unsupported("%s of a symbolic value", name)
			}
			return FPc64(f(fpval(t)))
		})
	}
	fc("math.Floor", math.Floor)
	fc("math.Ceil", math.Ceil)
	fc("math.Trunc", math.Trunc)
	fc("math.Round", math.Round)
	fc("math.Sqrt", math.Sqrt)
	fc("math.Log2", math.Log2)
	fc("math.Log", math.Log)
	cb := func(name string, f func(uint64) int) {
		reg(name, func(fr *frame, a []value) value {
			t := a[0].(*Term)
			v := fr.m.concretize(t, name)
			return BV(64, uint64(f(v)))
		})
	}
	_ = cb
	reg("math/bits.Len64 math/bits.Len math/bits.Len32 math/bits.Len8 math/bits.Len16", f1(func(m *Machine, t *Term) value {
		if t.isConst() {
			return BV(64, uint64(bits.Len64(t.val)))
		}
		r := BV(64, 0)
		for i := uint8(0); i < t.w; i++ {
			r = m.tt.Ite(m.tt.Eq(m.tt.Extract(t, i, i), BV(1, 1)), BV(64, uint64(i)+1), r)
		}
		return r
	}))

	// ---------- strings/bytes primitives ----------
	reg("(*strings.Builder).copyCheck", nop)
	reg("internal/bytealg.IndexByte internal/bytealg.IndexByteString", func(fr *frame, a []value) value {
		m := fr.m
		var bs []value
		if s, ok := a[0].([]value); ok {
			bs = s
		} else {
			bs = m.strToBytes(a[0])
		}
		for i, b := range bs {
			if m.branch(m.tt.Eq(b.(*Term), a[1].(*Term))) {
				return BV(64, uint64(i))
			}
		}
		return i64(-1)
	})
	reg("internal/bytealg.LastIndexByte internal/bytealg.LastIndexByteString", func(fr *frame, a []value) value {
		m := fr.m
		var bs []value
		if s, ok := a[0].([]value); ok {
			bs = s
		} else {
			bs = m.strToBytes(a[0])
		}
		for i := len(bs) - 1; i >= 0; i-- {
			if m.branch(m.tt.Eq(bs[i].(*Term), a[1].(*Term))) {
				return BV(64, uint64(i))
			}
		}
		return i64(-1)
	})
	reg("internal/bytealg.Count internal/bytealg.CountString", func(fr *frame, a []value) value {
		m := fr.m
		var bs []value
		if s, ok := a[0].([]value); ok {
			bs = s
		} else {
			bs = m.strToBytes(a[0])
		}
		r := BV(64, 0)
		for _, b := range bs {
			r = m.tt.bin(OAdd, r, m.tt.Ite(m.tt.Eq(b.(*Term), a[1].(*Term)), BV(64, 1), BV(64, 0)))
		}
		return r
	})
	reg("internal/bytealg.Equal bytes.Equal", func(fr *frame, a []value) value {
		m := fr.m
		return m.bytesEq(a[0].([]value), a[1].([]value))
	})
	reg("internal/bytealg.Compare bytes.Compare", func(fr *frame, a []value) value {
		m := fr.m
		bt := types.NewSlice(types.Typ[types.Uint8])
		x := m.convert(bt, types.Typ[types.String], a[0])
		y := m.convert(bt, types.Typ[types.String], a[1])
		return m.tt.Ite(m.strEq(x, y), BV(64, 0), m.tt.Ite(m.strLess(x, y, false), i64(-1), i64(1)))
	})
	reg("internal/bytealg.CompareString strings.Compare", func(fr *frame, a []value) value {
		m := fr.m
		return m.tt.Ite(m.strEq(a[0], a[1]), BV(64, 0), m.tt.Ite(m.strLess(a[0], a[1], false), i64(-1), i64(1)))
	})
	reg("internal/bytealg.IndexString internal/bytealg.Index strings.Index bytes.Index internal/stringslite.Index", func(fr *frame, a []value) value {
		m := fr.m
		tob := func(v value) []value {
			if s, ok := v.([]value); ok {
				return s
			}
			return m.strToBytes(v)
		}
		h, n := tob(a[0]), tob(a[1])
		for i := 0; i+len(n) <= len(h); i++ {
			if m.branch(m.bytesEq(h[i:i+len(n)], n)) {
				return BV(64, uint64(i))
			}
		}
		return i64(-1)
	})
	reg("internal/bytealg.MakeNoZero", func(fr *frame, a []value) value {
		n := fr.m.concretize(a[0].(*Term), "MakeNoZero")
		return makeSlice(types.Typ[types.Uint8], int(n), int(n))
	})
	reg("strings.ToLower strings.ToUpper", nil)
	delete(intrinsics, "strings.ToLower")
	delete(intrinsics, "strings.ToUpper")

	// ---------- os environment ----------
	reg("strings.Clone internal/stringslite.Clone", func(fr *frame, a []value) value { return a[0] })
	reg("os.Getenv", func(fr *frame, a []value) value {
		m := fr.m
		if v, ok := m.env()[m.concString(a[0])]; ok {
			return v
		}
		return ""
	})
	reg("os.LookupEnv", func(fr *frame, a []value) value {
		m := fr.m
		if v, ok := m.env()[m.concString(a[0])]; ok {
			return tuple{v, tTrue}
		}
		return tuple{"", tFalse}
	})
	reg("os.Setenv", func(fr *frame, a []value) value {
		fr.m.env()[fr.m.concString(a[0])] = a[1]
		return iface{}
	})
	reg("os.Clearenv", func(fr *frame, a []value) value {
		clear(fr.m.env())
		return nil
	})
	reg("os.Environ", func(fr *frame, a []value) value {
		var l []string
		for k, v := range fr.m.env() {
			l = append(l, k+"="+fr.m.concString(v))
		}
		sort.Strings(l)
		r := make([]value, len(l))
		for i, s := range l {
			r[i] = s
		}
		return r
	})
	reg("os.Unsetenv", func(fr *frame, a []value) value {
		delete(fr.m.env(), fr.m.concString(a[0]))
		return iface{}
	})

	// ---------- sort ----------
	sortSlice := func(fr *frame, a []value) value {
		m := fr.m
		v := a[0].(iface)
		s := v.v.([]value)
		et := v.t.Underlying().(*types.Slice).Elem()
		// insertion sort through the comparison function
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.branch(m.callValue(fr, a[1], []value{BV(64, uint64(j)), BV(64, uint64(j-1))}).(*Term)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				assign(&s[j], y)
				assign(&s[j-1], x)
			}
		}
		_ = et
		return nil
	}
	reg("sort.Slice sort.SliceStable", sortSlice)
	reg("slices.overlaps", func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) == 0 || len(y) == 0 {
			return tFalse
		}
		at := func(s []value, i int) uintptr { return uintptr(unsafe.Pointer(&s[i])) }
		return Bool(at(x, 0) <= at(y, len(y)-1) && at(y, 0) <= at(x, len(x)-1))
	})
	reg("maps.clone", func(fr *frame, a []value) value {
		v := a[0].(iface)
		mp := v.v.(*smap)
		if mp == nil {
			return v
		}
		n := newMap(mp.keyT)
		for _, e := range mp.entries {
			fr.m.mapSet(n, e.key, e.val)
		}
		return iface{v.t, n}
	})
}

var opaquePtr value = BV(64, 1)

func (m *Machine) env() map[string]value {
	if m.envv == nil {
		m.envv = map[string]value{}
	}
	return m.envv
}

func (m *Machine) bytesEq(x, y []value) *Term {
	if len(x) != len(y) {
		return tFalse
	}
	r := tTrue
	for i := range x {
		r = m.tt.And(r, m.tt.Eq(x[i].(*Term), y[i].(*Term)))
	}
	return r
}

// ---------- errors ----------

func (m *Machine) unwrap(fr *frame, e iface) []iface {
	if e.t == nil {
		return nil
	}
	fn := m.prog.methodByName(e.t, "Unwrap")
	if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return nil
	}
	r := m.callInfo(fr, m.prog.info(fn), []value{e.v}, nil)
	switch r := r.(type) {
	case iface:
		if r.t == nil {
			return nil
		}
		return []iface{r}
	case []value:
		var out []iface
		for _, x := range r {
			if x.(iface).t != nil {
				out = append(out, x.(iface))
			}
		}
		return out
	}
	return nil
}

func (m *Machine) errorsIs(fr *frame, e, target iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) {
		if m.branch(m.eq(e.t, e.v, target.v)) {
			return true
		}
	}
	if fn := m.prog.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
		if r, ok := m.callInfo(fr, m.prog.info(fn), []value{e.v, target}, nil).(*Term); ok && m.branch(r) {
			return true
		}
	}
	for _, u := range m.unwrap(fr, e) {
		if m.errorsIs(fr, u, target) {
			return true
		}
	}
	return false
}

func (m *Machine) errorsAs(fr *frame, e, target iface) bool {
	if e.t == nil {
		return false
	}
	if target.t == nil {
		m.goPanic(iface{types.Typ[types.String], "errors: target cannot be nil"})
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		m.goPanic(iface{types.Typ[types.String], "errors: target must be a non-nil pointer"})
	}
	et := pt.Elem()
	dst := target.v.(*value)
	if it, ok := et.Underlying().(*types.Interface); ok {
		if m.prog.implements(e.t, it) {
			*dst = e
			return true
		}
	} else if types.Identical(e.t, et) {
		assign(dst, copyVal(e.v))
		return true
	}
	if fn := m.prog.methodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
		if r, ok := m.callInfo(fr, m.prog.info(fn), []value{e.v, target}, nil).(*Term); ok && m.branch(r) {
			return true
		}
	}
	for _, u := range m.unwrap(fr, e) {
		if m.errorsAs(fr, u, target) {
			return true
		}
	}
	return false
}

// ---------- reflect ----------

func (m *Machine) mkRType(t types.Type) iface {
	k := t.String()
	if v, ok := m.reflTypes[k]; ok {
		return v
	}
	v := iface{types.Typ[types.Uintptr], opaque{"rtype", t}}
	m.reflTypes[k] = v
	return v
}

func (m *Machine) rtypeMethod(t types.Type, name string, args []value) value {
	switch name {
	case "Name":
		if n, ok := t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "String":
		return types.TypeString(t, func(p *types.Package) string { return p.Name() })
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Size":
		return BV(64, uint64(stdSizes.Sizeof(t)))
	case "Comparable":
		return Bool(types.Comparable(t))
	case "Kind":
		var k reflect.Kind
		switch u := t.Underlying().(type) {
		case *types.Basic:
			for kk := reflect.Bool; kk <= reflect.UnsafePointer; kk++ {
				if kk.String() == u.Name() {
					k = kk
				}
			}
			if u.Name() == "byte" {
				k = reflect.Uint8
			}
		case *types.Pointer:
			k = reflect.Pointer
		case *types.Struct:
			k = reflect.Struct
		case *types.Slice:
			k = reflect.Slice
		case *types.Array:
			k = reflect.Array
		case *types.Map:
			k = reflect.Map
		case *types.Interface:
			k = reflect.Interface
		case *types.Signature:
			k = reflect.Func
		case *types.Chan:
			k = reflect.Chan
		}
		return BV(64, uint64(k))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return m.mkRType(u.Elem())
		case *types.Slice:
			return m.mkRType(u.Elem())
		}
	}
	m.unsupported("reflect.Type.%s", name)
	return nil
}

func (m *Machine) deepEqual(t types.Type, x, y value, depth int) *Term {
	if depth > 50 {
		m.unsupported("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.([]value), y.([]value)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return tFalse
		}
		r := tTrue
		for i := range a {
			r = m.tt.And(r, m.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return r
	case *types.Array:
		a, b := x.(array), y.(array)
		r := tTrue
		for i := range a {
			r = m.tt.And(r, m.deepEqual(u.Elem(), a[i], b[i], depth+1))
		}
		return r
	case *types.Struct:
		a, b := x.(structure), y.(structure)
		r := tTrue
		for i := range a {
			r = m.tt.And(r, m.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return r
	case *types.Pointer:
		a, b := x.(*value), y.(*value)
		if a == b {
			return tTrue
		}
		if a == nil || b == nil {
			return tFalse
		}
		return m.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tFalse
		}
		return m.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Map:
		a, b := x.(*smap), y.(*smap)
		if (a == nil) != (b == nil) {
			return tFalse
		}
		if a == b {
			return tTrue
		}
		if a.n != b.n {
			return tFalse
		}
		r := tTrue
		for _, e := range a.entries {
			o := m.mapFind(b, e.key)
			if o == nil {
				return tFalse
			}
			r = m.tt.And(r, m.deepEqual(u.Elem(), e.val, o.val, depth+1))
		}
		return r
	case *types.Signature:
		return Bool(isNilFunc(x) && isNilFunc(y))
	}
	return m.eq(t, x, y)
}

func sortedKeys[V any](mm map[string]V) []string {
	ks := make([]string, 0, len(mm))
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ ssa.Value
