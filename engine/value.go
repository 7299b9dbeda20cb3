package main

import (
	"fmt"
	"go/types"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// Representation of Go values:
//   bool, integers, floats     *Term
//   string                     string (concrete) or *symStr
//   pointer                    *value (nil pointer: (*value)(nil)), or *symRef
//   struct                     structure
//   array                      array
//   slice                      []value
//   map                        *smap
//   chan                       *chanV
//   interface                  iface
//   func                       *ssa.Function, *closure, *ssa.Builtin
//   tuple                      tuple
//   unsafe.Pointer             unsafePtr

type value any
type structure []value
type array []value
type tuple []value

type symStr struct{ b []*Term }

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type unsafePtr struct {
	v value
	t types.Type // of the pointer
}

// nativeFn is a function value implemented by the engine.
type nativeFn struct {
	name string
	f    func(m *Machine, args []value) value
}

// symRef is the address of an element at a symbolic index.
type symRef struct {
	base []value
	idx  *Term
}

// opaque wraps engine-side data stored inside target values.
type opaque struct {
	kind string
	data any
}

// ---------- strings ----------

func mkStr(b []*Term) value {
	for _, t := range b {
		if !t.isConst() {
			return &symStr{b}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.val)
	}
	return string(buf)
}

func strLen(v value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(engineBug("strLen of %T", v))
}

func strBytes(v value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = BV(8, uint64(s[i]))
		}
		return out
	case *symStr:
		return s.b
	}
	panic(engineBug("strBytes of %T", v))
}

func strSlice(v value, lo, hi int) value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *symStr:
		return mkStr(s.b[lo:hi])
	}
	panic(engineBug("strSlice"))
}

func strConcat(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	return mkStr(append(append([]*Term{}, strBytes(a)...), strBytes(b)...))
}

func (m *Machine) strEq(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return Bool(x == y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	if len(x) != len(y) {
		return tFalse
	}
	r := tTrue
	for i := range x {
		r = m.tt.And(r, m.tt.Eq(x[i], y[i]))
	}
	return r
}

func (m *Machine) strLess(a, b value, orEq bool) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return Bool(x <= y)
			}
			return Bool(x < y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	var r *Term
	if orEq {
		r = Bool(len(x) <= len(y))
	} else {
		r = Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = m.tt.Ite(m.tt.Ult(x[i], y[i]), tTrue, m.tt.Ite(m.tt.Eq(x[i], y[i]), r, tFalse))
	}
	return r
}

// concStr renders a string for messages; symbolic bytes become '?'.
func concStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *symStr:
		var sb strings.Builder
		for _, t := range s.b {
			if t.isConst() {
				sb.WriteByte(byte(t.val))
			} else {
				sb.WriteByte('?')
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%T", v)
}

// ---------- types ----------

var stdSizes = types.SizesFor("gc", "amd64")

func width(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(engineBug("width of %v", t))
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64
	case types.Float32:
		return FP32
	case types.Float64, types.UntypedFloat:
		return FP64
	}
	panic(engineBug("width of %v", t))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return unsafePtr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		if u.Info()&types.IsComplex != 0 {
			return opaque{"complex", nil}
		}
		w := width(t)
		if w == 0 {
			return tFalse
		}
		if w == FP32 || w == FP64 {
			return &Term{op: OConst, w: w}
		}
		return BV(w, 0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			flat := isFlat(u.Elem())
			for i := range a {
				if flat {
					a[i] = z
				} else {
					a[i] = zero(u.Elem())
				}
			}
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*smap)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		tu := make(tuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return tu
	case *types.TypeParam:
		panic(engineBug("zero of type param %v", t))
	}
	panic(engineBug("zero of %v", t))
}

// isFlat: values of the type can be copied by copying the interface word.
func isFlat(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		c := make(structure, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	case array:
		c := make(array, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	}
	return v
}

// assign stores v into *addr keeping the identity of nested cells.
func assign(addr *value, v value) {
	switch x := v.(type) {
	case structure:
		if old, ok := (*addr).(structure); ok && len(old) == len(x) {
			for i := range x {
				assign(&old[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	case array:
		if old, ok := (*addr).(array); ok && len(old) == len(x) {
			for i := range x {
				assign(&old[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// ---------- equality ----------

func (m *Machine) eq(t types.Type, x, y value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return m.strEq(x, y)
		}
		if u.Kind() == types.UnsafePointer {
			return Bool(fmt.Sprint(x) == fmt.Sprint(y))
		}
		if u.Info()&types.IsFloat != 0 {
			return m.tt.FCmp(OFEq, x.(*Term), y.(*Term))
		}
		return m.tt.Eq(x.(*Term), y.(*Term))
	case *types.Pointer:
		xp, ok1 := x.(*value)
		yp, ok2 := y.(*value)
		if !ok1 || !ok2 {
			m.unsupported("comparison of symbolic element addresses")
		}
		if xp == yp {
			return tTrue
		}
		if xp != nil && yp != nil && zeroSize(u.Elem()) {
			// pointers to distinct zero-size variables may or may not be equal
			return Bool(m.choose(2, "zero-size pointer equality") == 1)
		}
		return tFalse
	case *types.Struct:
		xs, ys := x.(structure), y.(structure)
		r := tTrue
		for i := range xs {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = m.tt.And(r, m.eq(u.Field(i).Type(), xs[i], ys[i]))
		}
		return r
	case *types.Array:
		xs, ys := x.(array), y.(array)
		r := tTrue
		for i := range xs {
			r = m.tt.And(r, m.eq(u.Elem(), xs[i], ys[i]))
		}
		return r
	case *types.Interface:
		xi, yi := x.(iface), y.(iface)
		if xi.t == nil || yi.t == nil {
			return Bool(xi.t == nil && yi.t == nil)
		}
		if !types.Identical(xi.t, yi.t) {
			return tFalse
		}
		if !types.Comparable(xi.t) {
			m.goPanicStr("runtime error: comparing uncomparable type " + xi.t.String())
		}
		return m.eq(xi.t, xi.v, yi.v)
	case *types.Chan:
		return Bool(x.(*chanV) == y.(*chanV))
	case *types.Slice:
		// only against nil
		return Bool((x.([]value) == nil) && (y.([]value) == nil))
	case *types.Map:
		return Bool(x.(*smap) == nil && y.(*smap) == nil)
	case *types.Signature:
		return Bool(isNilFunc(x) && isNilFunc(y))
	}
	panic(engineBug("eq of %v", t))
}

func zeroSize(t types.Type) bool {
	defer func() { recover() }()
	return stdSizes.Sizeof(t) == 0
}

func isNilFunc(v value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *closure:
		return f == nil
	case nil:
		return true
	}
	return false
}

// ---------- maps ----------

type mapEntry struct {
	key, val value
	dead     bool
}

type smap struct {
	keyT    types.Type
	entries []*mapEntry
	index   map[string]*mapEntry // concrete keys only
	symKeys int
	n       int
}

func keyString(v value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "", false
		}
		return fmt.Sprintf("%d:%d", x.w, x.val), true
	case string:
		return "s" + x, true
	case *symStr:
		return "", false
	case iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := keyString(x.v)
		return x.t.String() + "|" + s, ok
	case structure:
		var sb strings.Builder
		for _, f := range x {
			s, ok := keyString(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d{%s}", len(s), s)
		}
		return sb.String(), true
	case array:
		return keyString(structure(x))
	case *value:
		return fmt.Sprintf("p%d", uintptr(unsafe.Pointer(x))), true
	case *chanV:
		return fmt.Sprintf("c%p", x), true
	case opaque:
		return fmt.Sprintf("o%s%v", x.kind, x.data), true
	}
	return "", false
}

func newMap(keyT types.Type) *smap {
	return &smap{keyT: keyT, index: map[string]*mapEntry{}}
}

func (m *Machine) mapFind(mp *smap, key value) *mapEntry {
	if mp == nil {
		return nil
	}
	ks, conc := keyString(key)
	if conc && mp.symKeys == 0 {
		return mp.index[ks]
	}
	if conc {
		if e := mp.index[ks]; e != nil {
			return e
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if conc {
			if _, c := keyString(e.key); c {
				continue
			}
		}
		if m.branch(m.eq(mp.keyT, e.key, key)) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *smap, key, val value) {
	if e := m.mapFind(mp, key); e != nil {
		e.val = copyVal(val)
		return
	}
	e := &mapEntry{key: copyVal(key), val: copyVal(val)}
	mp.entries = append(mp.entries, e)
	mp.n++
	if ks, ok := keyString(key); ok {
		mp.index[ks] = e
	} else {
		mp.symKeys++
	}
}

func (m *Machine) mapDelete(mp *smap, key value) {
	if mp == nil {
		return
	}
	e := m.mapFind(mp, key)
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	if ks, ok := keyString(e.key); ok {
		delete(mp.index, ks)
	} else {
		mp.symKeys--
	}
	for i, x := range mp.entries {
		if x == e {
			mp.entries = append(append([]*mapEntry{}, mp.entries[:i]...), mp.entries[i+1:]...)
			break
		}
	}
}

func (m *Machine) mapClear(mp *smap) {
	if mp == nil {
		return
	}
	for _, e := range mp.entries {
		e.dead = true
	}
	mp.entries, mp.index, mp.symKeys, mp.n = nil, map[string]*mapEntry{}, 0, 0
}

// ---------- slices: growth as in the Go runtime ----------

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen int, elem types.Type) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	es := int(stdSizes.Sizeof(elem))
	if es == 0 {
		return max(newcap, newLen)
	}
	return roundupsize(newcap*es) / es
}

func makeSlice(elem types.Type, n, c int) []value {
	s := make([]value, c)
	if c > 0 {
		flat := isFlat(elem)
		z := zero(elem)
		for i := range s {
			if flat {
				s[i] = z
			} else {
				s[i] = zero(elem)
			}
		}
	}
	return s[:n]
}

func (m *Machine) appendSlice(elem types.Type, s, add []value) []value {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n > cap(s) {
		ns := makeSlice(elem, n, growCap(cap(s), n, elem))
		m.copyElems(elem, ns, s)
		s = ns[:len(s)]
	}
	r := s[:n]
	m.copyElems(elem, r[len(s):], add)
	return r
}

func (m *Machine) copyElems(elem types.Type, dst, src []value) {
	if m.race != nil && m.raceActive() {
		n := min(len(dst), len(src))
		for i := 0; i < n; i++ {
			m.raceAccess(&src[i], false)
			m.raceAccess(&dst[i], true)
		}
	}
	if isFlat(elem) {
		copy(dst, src)
		return
	}
	n := min(len(dst), len(src))
	tmp := make([]value, n)
	for i := 0; i < n; i++ {
		tmp[i] = copyVal(src[i])
	}
	for i := 0; i < n; i++ {
		assign(&dst[i], tmp[i])
	}
}
