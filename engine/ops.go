package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			m.nilDeref()
		}
		return p
	case *symRef:
		return &p.base[m.concretize(p.idx, "element address")]
	case *sliceDataPtr:
		return &p.s[0]
	}
	m.unsupported("pointer %T", v)
	return nil
}

func (m *Machine) load(p value, t types.Type) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.raceVal(p, false)
		}
		return *p
	case *symRef:
		return m.symIndex(p.base, p.idx)
	case *sliceDataPtr:
		return p.s[0]
	}
	m.unsupported("load through %T", p)
	return nil
}

func (m *Machine) store(p value, v value, flat bool, t types.Type) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			m.nilDeref()
		}
		if m.race != nil {
			m.raceVal(p, true)
		}
		if flat {
			*p = v
		} else {
			assign(p, copyVal(v))
		}
		return
	case *symRef:
		for i := range p.base {
			p.base[i] = m.tt.Ite(m.tt.Eq(p.idx, BV(p.idx.w, uint64(i))), v.(*Term), p.base[i].(*Term))
		}
		return
	}
	m.unsupported("store through %T", p)
}

func (m *Machine) symIndex(base []value, idx *Term) value {
	if len(base) == 0 {
		m.unsupported("symbolic index into empty")
	}
	if _, ok := base[0].(*Term); !ok {
		return base[m.concretize(idx, "index")]
	}
	// group: balanced ite tree over index bits would be smaller, but a chain simplifies better
	r := base[len(base)-1].(*Term)
	for i := len(base) - 2; i >= 0; i-- {
		r = m.tt.Ite(m.tt.Eq(idx, BV(idx.w, uint64(i))), base[i].(*Term), r)
	}
	return r
}

func (m *Machine) indexPanic(k int64, n int) {
	m.goPanicStr(fmt.Sprintf("index out of range [%d] with length %d", k, n))
}

func (m *Machine) checkIndex(it *Term, signed bool, n int) {
	var ok *Term
	x := m.ext(it, 64, signed)
	ok = m.tt.Ult(x, BV(64, uint64(n)))
	if !m.branch(ok) {
		m.goPanicStr(fmt.Sprintf("index out of range [?] with length %d", n))
	}
}

func (m *Machine) ext(t *Term, w uint8, signed bool) *Term {
	if t.w == w {
		return t
	}
	if t.w > w {
		return m.tt.Extract(t, w-1, 0)
	}
	if signed {
		return m.tt.SExt(t, w)
	}
	return m.tt.ZExt(t, w)
}

func (m *Machine) checkHashable(t types.Type, k value) {
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		m.goPanicStr("hash of unhashable type " + i.t.String())
	}
}

func (m *Machine) checkAlloc(n int, et types.Type) {
	sz := int64(1)
	func() {
		defer func() { recover() }()
		sz = stdSizes.Sizeof(et)
	}()
	tot := int64(n) * sz
	if m.maxAlloc > 0 && tot > int64(m.maxAlloc) {
		m.violate("alloc", fmt.Sprintf("allocation of %d bytes exceeds the permitted %d at %s", tot, m.maxAlloc, m.where()), m.model)
	}
}

// prefer chooses an n well above the limit, but small enough to be tried natively.
func (m *Machine) prefer(lim uint64, n *Term) {
	m.branch(m.tt.And(m.tt.Ult(BV(64, 8*lim), n), m.tt.Ult(n, BV(64, 64*lim))))
}

// checkMapSize: the space reserved by make(map, n); a negative n counts as 0.
func (m *Machine) checkMapSize(n *Term, kt, vt types.Type) {
	if m.maxAlloc == 0 {
		return
	}
	sz := uint64(stdSizes.Sizeof(kt)+stdSizes.Sizeof(vt)) + 1
	lim := uint64(m.maxAlloc) / sz
	if m.branch(m.tt.And(m.tt.Ult(BV(64, lim), n), m.tt.Ult(n, BV(64, 1<<63)))) {
		m.prefer(lim, n)
		m.violate("alloc", fmt.Sprintf("map of more than %d entries reserved at %s", lim, m.where()), m.model)
	}
}

func (m *Machine) makeSlice(et types.Type, l, c *Term, ls, cs bool) value {
	l64, c64 := m.ext(l, 64, ls), m.ext(c, 64, cs)
	sz := uint64(stdSizes.Sizeof(et))
	if sz == 0 {
		sz = 1
	}
	lim := uint64(1<<47) / sz
	if !m.branch(m.tt.Ule(l64, BV(64, lim))) {
		m.goPanicStr("makeslice: len out of range")
	}
	if c64 != l64 {
		if !m.branch(m.tt.And(m.tt.Ule(c64, BV(64, lim)), m.tt.Ule(l64, c64))) {
			m.goPanicStr("makeslice: cap out of range")
		}
	}
	if m.maxAlloc > 0 && !c64.isConst() {
		bad := m.tt.Ult(BV(64, uint64(m.maxAlloc)/sz), c64)
		if m.branch(bad) {
			m.prefer(uint64(m.maxAlloc)/sz, c64)
			m.violate("alloc", fmt.Sprintf("allocation bounded by untrusted input only (more than %d bytes) at %s", m.maxAlloc, m.where()), m.model)
		}
	}
	hl := uint64(m.opts["maxmake"])
	if hl == 0 {
		hl = 1 << 20
	}
	if !c64.isConst() {
		if m.branch(m.tt.Ult(BV(64, hl), c64)) {
			m.stop("bound", "make with symbolic size over %d at %s", hl, m.where())
		}
	}
	cc := m.concretize(c64, "make cap")
	ll := m.concretize(l64, "make len")
	if cc > 1<<26 {
		m.stop("bound", "make of %d elements at %s", cc, m.where())
	}
	if m.maxAlloc > 0 && cc*sz > uint64(m.maxAlloc) {
		m.violate("alloc", fmt.Sprintf("allocation of %d bytes exceeds the permitted %d at %s", cc*sz, m.maxAlloc, m.where()), m.model)
	}
	m.steps += int(cc / 16)
	return makeSlice(et, int(ll), int(cc))
}

func (m *Machine) less(t types.Type, x, y *Term) *Term {
	switch {
	case isFloat(t):
		return m.tt.FCmp(OFLt, x, y)
	case isSigned(t):
		return m.tt.Slt(x, y)
	}
	return m.tt.Ult(x, y)
}

func (m *Machine) binop(op token.Token, t, yt types.Type, x, y value) value {
	tt := m.tt
	switch op {
	case token.EQL:
		return m.eqOp(t, x, y)
	case token.NEQ:
		return tt.Not(m.eqOp(t, x, y))
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		m.unsupported("operator %v on %T,%T", op, x, y)
	}
	if isFloat(t) {
		switch op {
		case token.ADD:
			return tt.FBin(OFAdd, a, b)
		case token.SUB:
			return tt.FBin(OFSub, a, b)
		case token.MUL:
			return tt.FBin(OFMul, a, b)
		case token.QUO:
			return tt.FBin(OFDiv, a, b)
		case token.LSS:
			return tt.FCmp(OFLt, a, b)
		case token.LEQ:
			return tt.FCmp(OFLe, a, b)
		case token.GTR:
			return tt.FCmp(OFLt, b, a)
		case token.GEQ:
			return tt.FCmp(OFLe, b, a)
		}
	}
	signed := isSigned(t)
	switch op {
	case token.ADD:
		return tt.bin(OAdd, a, b)
	case token.SUB:
		return tt.bin(OSub, a, b)
	case token.MUL:
		return tt.bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(tt.Eq(b, BV(b.w, 0))) {
			m.goPanicStr("integer divide by zero")
		}
		if op == token.QUO {
			if signed {
				return tt.bin(OSDiv, a, b)
			}
			return tt.bin(OUDiv, a, b)
		}
		if signed {
			return tt.bin(OSRem, a, b)
		}
		return tt.bin(OURem, a, b)
	case token.AND:
		return tt.bin(OBAnd, a, b)
	case token.OR:
		return tt.bin(OBOr, a, b)
	case token.XOR:
		return tt.bin(OBXor, a, b)
	case token.AND_NOT:
		return tt.bin(OBAnd, a, tt.BNot(b))
	case token.SHL, token.SHR:
		return m.shift(op, signed, isSigned(yt), a, b)
	case token.LSS:
		if signed {
			return tt.Slt(a, b)
		}
		return tt.Ult(a, b)
	case token.LEQ:
		if signed {
			return tt.Sle(a, b)
		}
		return tt.Ule(a, b)
	case token.GTR:
		if signed {
			return tt.Slt(b, a)
		}
		return tt.Ult(b, a)
	case token.GEQ:
		if signed {
			return tt.Sle(b, a)
		}
		return tt.Ule(b, a)
	}
	m.unsupported("operator %v", op)
	return nil
}

func (m *Machine) shift(op token.Token, signed, ysigned bool, a, b *Term) value {
	tt := m.tt
	if ysigned && !b.isConst() {
		if m.branch(tt.Slt(b, BV(b.w, 0))) {
			m.goPanicStr("negative shift amount")
		}
	} else if ysigned && sx(b.val, b.w) < 0 {
		m.goPanicStr("negative shift amount")
	}
	big := tt.Not(tt.Ult(m.ext(b, 64, false), BV(64, uint64(a.w))))
	cnt := m.ext(b, a.w, false)
	if b.w > a.w && !b.isConst() {
		cnt = tt.Extract(b, a.w-1, 0)
	}
	var r, o *Term
	switch {
	case op == token.SHL:
		r, o = tt.bin(OShl, a, cnt), BV(a.w, 0)
	case signed:
		r = tt.bin(OAShr, a, cnt)
		o = tt.bin(OAShr, a, BV(a.w, uint64(a.w-1)))
	default:
		r, o = tt.bin(OLShr, a, cnt), BV(a.w, 0)
	}
	return tt.Ite(big, o, r)
}

func (m *Machine) eqOp(t types.Type, x, y value) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		// comparison of interface with concrete operand does not occur in SSA
		return m.eq(t, x, y)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		if xs, ok := x.(*sliceDataPtr); ok {
			if ys, ok := y.(*sliceDataPtr); ok {
				return Bool(len(xs.s) > 0 && len(ys.s) > 0 && &xs.s[0] == &ys.s[0])
			}
			return tFalse
		}
		if _, ok := y.(*sliceDataPtr); ok {
			return tFalse
		}
	}
	return m.eq(t, x, y)
}

func (m *Machine) unop(op token.Token, t types.Type, x value) value {
	tt := m.tt
	a, ok := x.(*Term)
	if !ok {
		m.unsupported("operator %v on %T", op, x)
	}
	switch op {
	case token.NOT:
		return tt.Not(a)
	case token.SUB:
		if isFloat(t) {
			return tt.FNeg(a)
		}
		return tt.Neg(a)
	case token.XOR:
		return tt.BNot(a)
	}
	m.unsupported("operator %v", op)
	return nil
}

func isByteSlice(t types.Type) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if b.Kind() == types.Uint8 || b.Kind() == types.Int32 {
		return b, true
	}
	return nil, false
}

func (m *Machine) convert(from, to types.Type, x value) value {
	tt := m.tt
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return x
	}
	fb, fok := fu.(*types.Basic)
	tb, tok := tu.(*types.Basic)
	if fok && tok {
		if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
			m.unsupported("unsafe conversion")
		}
		if tb.Info()&types.IsString != 0 {
			if fb.Info()&types.IsString != 0 {
				return x
			}
			r := x.(*Term)
			k := int64(m.concretize(m.ext(r, 64, isSigned(from)), "rune to string"))
			if k < 0 || k > utf8.MaxRune {
				return "\uFFFD"
			}
			return string(rune(k))
		}
		a, ok := x.(*Term)
		if !ok {
			m.unsupported("conversion %v to %v", from, to)
		}
		ff, tf := isFloat(from), isFloat(to)
		switch {
		case ff && tf:
			return tt.FToF(a, width(to))
		case ff:
			r := tt.FToInt(a, isSigned(to), width(to))
			if m.opts["forkftoint"] != 0 && !r.isConst() {
				return BV(r.w, m.concretize(r, "float to integer"))
			}
			return r
		case tf:
			return tt.IntToF(a, isSigned(from), width(to))
		}
		if a.w == 0 || width(to) == 0 {
			return a
		}
		return m.ext(a, width(to), isSigned(from))
	}
	if fok && fb.Info()&types.IsString != 0 {
		if eb, ok := isByteSlice(to); ok {
			if eb.(*types.Basic).Kind() == types.Uint8 {
				b := strBytes(x)
				out := make([]value, len(b), roundupsize(len(b)))
				for i := range b {
					out[i] = b[i]
				}
				for i := len(b); i < cap(out); i++ {
					out[:cap(out)][i] = BV(8, 0)
				}
				return out
			}
			s := m.concString(x)
			var out []value
			for _, r := range s {
				out = append(out, BV(32, uint64(uint32(r))))
			}
			return out
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if eb, ok := isByteSlice(from); ok {
			s := x.([]value)
			if eb.(*types.Basic).Kind() == types.Uint8 {
				b := make([]*Term, len(s))
				for i := range s {
					b[i] = s[i].(*Term)
				}
				return mkStr(b)
			}
			out := ""
			for _, r := range s {
				out += string(rune(int32(m.concretize(r.(*Term), "rune"))))
			}
			return out
		}
	}
	// slice -> array
	if s, ok := fu.(*types.Slice); ok {
		if at, ok := tu.(*types.Array); ok {
			_ = s
			v := x.([]value)
			if int64(len(v)) < at.Len() {
				m.goPanicStr(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(v), at.Len()))
			}
			return copyVal(array(v[:at.Len()]))
		}
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return unsafePtr{x, from}
	}
	if fok && fb.Kind() == types.UnsafePointer {
		up := x.(unsafePtr)
		if up.v == nil {
			return zero(to)
		}
		if p, ok := tu.(*types.Pointer); ok {
			if q, ok := up.t.Underlying().(*types.Pointer); ok && !types.Identical(p.Elem().Underlying(), q.Elem().Underlying()) {
				m.unsupported("unsafe conversion of %v to %v", up.t, to)
			}
			return up.v
		}
	}
	m.unsupported("conversion %v to %v", from, to)
	return nil
}

// concString makes a string concrete, forking over byte values.
func (m *Machine) concString(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := strBytes(v)
	out := make([]byte, len(b))
	for i, t := range b {
		out[i] = byte(m.concretize(t, "string byte"))
	}
	return string(out)
}

// ---------- interfaces ----------

func (m *Machine) typeAssert(v iface, at types.Type) (value, bool, string) {
	if it, ok := at.Underlying().(*types.Interface); ok {
		if v.t == nil {
			return nil, false, "interface conversion: interface is nil, not " + at.String()
		}
		if m.prog.implements(v.t, it) {
			return v, true, ""
		}
		return nil, false, fmt.Sprintf("interface conversion: %v is not %v: missing method", v.t, at)
	}
	if v.t != nil && types.Identical(v.t, at) {
		return copyVal(v.v), true, ""
	}
	if v.t == nil {
		return nil, false, "interface conversion: interface is nil, not " + at.String()
	}
	return nil, false, fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, at)
}

func (m *Machine) lookup(recv iface, meth *types.Func) value {
	if recv.t == nil {
		m.nilDeref()
	}
	if o, ok := recv.v.(opaque); ok && o.kind == "rtype" {
		name := meth.Name()
		return &nativeFn{name: "rtype." + name, f: func(m *Machine, args []value) value {
			return m.rtypeMethod(o.data.(types.Type), name, args[1:])
		}}
	}
	fn := m.prog.method(recv.t, meth)
	if fn == nil {
		m.unsupported("method %s of %v", meth.Name(), recv.t)
	}
	return fn
}

// callMethod invokes a method by name on a dynamic value.
func (m *Machine) callMethod(fr *frame, recv iface, name string, args ...value) (value, bool) {
	fn := m.prog.methodByName(recv.t, name)
	if fn == nil {
		return nil, false
	}
	return m.callInfo(fr, m.prog.info(fn), append([]value{recv.v}, args...), nil), true
}

func (m *Machine) tryErrorString(v iface) (string, bool) {
	if v.t == nil || m.cur == nil {
		return "", false
	}
	fn := m.prog.methodByName(v.t, "Error")
	if fn == nil {
		return "", false
	}
	r := m.callInfo(m.cur.top, m.prog.info(fn), []value{v.v}, nil)
	return concStr(r), true
}

// ---------- iteration ----------

type strIter struct {
	s value
	i int
}

func (it *strIter) next(m *Machine) value {
	if it.i >= strLen(it.s) {
		return tuple{tFalse, BV(64, 0), BV(32, 0)}
	}
	switch s := it.s.(type) {
	case string:
		r, n := utf8.DecodeRuneInString(s[it.i:])
		t := tuple{tTrue, BV(64, uint64(it.i)), BV(32, uint64(uint32(r)))}
		it.i += n
		return t
	}
	b := strBytes(it.s)
	c := b[it.i]
	if m.branch(m.tt.Ult(c, BV(8, 0x80))) {
		t := tuple{tTrue, BV(64, uint64(it.i)), m.tt.ZExt(c, 32)}
		it.i++
		return t
	}
	// non-ASCII: make the (up to four) bytes concrete
	var buf []byte
	for k := it.i; k < len(b) && k < it.i+4; k++ {
		buf = append(buf, byte(m.concretize(b[k], "utf8 byte")))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	t := tuple{tTrue, BV(64, uint64(it.i)), BV(32, uint64(uint32(r)))}
	it.i += n
	return t
}

type mapIter struct {
	mp   *smap
	todo []*mapEntry
	rev  int
}

func (m *Machine) newMapIter(mp *smap) *mapIter {
	it := &mapIter{mp: mp}
	if mp == nil {
		return it
	}
	it.todo = append(it.todo, mp.entries...)
	if len(it.todo) > m.mapPerm && len(it.todo) > 1 && m.mapPerm >= 2 {
		// two orders only
		if m.choose(2, "map order") == 1 {
			for i, j := 0, len(it.todo)-1; i < j; i, j = i+1, j-1 {
				it.todo[i], it.todo[j] = it.todo[j], it.todo[i]
			}
		}
		it.rev = 1
	}
	return it
}

func (it *mapIter) next(m *Machine, kt, vt types.Type) value {
	for i := 0; i < len(it.todo); {
		if it.todo[i].dead {
			it.todo = append(append([]*mapEntry{}, it.todo[:i]...), it.todo[i+1:]...)
			continue
		}
		i++
	}
	if it.mp != nil {
		m.mapRace(it.mp, false)
	}
	if len(it.todo) == 0 {
		return tuple{tFalse, zeroOrNil(kt), zeroOrNil(vt)}
	}
	k := 0
	if it.rev == 0 && m.mapPerm >= 2 {
		k = m.choose(len(it.todo), "map order")
	}
	e := it.todo[k]
	it.todo = append(append([]*mapEntry{}, it.todo[:k]...), it.todo[k+1:]...)
	return tuple{tTrue, copyVal(e.key), copyVal(e.val)}
}

func zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// ---------- globals ----------

func (m *Machine) global(g *ssa.Global) *value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(value)
	*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
	m.globals[g] = p
	m.initGlobal(g)
	return p
}

func (m *Machine) initGlobal(g *ssa.Global) {
	pkg := g.Pkg
	if pkg == nil || g.Name() == "init$guard" {
		return
	}
	m.prog.build(pkg)
	pl := m.prog.initPlan(pkg)
	if pl.full {
		if m.inited[pkg] != 0 {
			return
		}
		m.inited[pkg] = 1
		initFn := pkg.Func("init")
		if initFn == nil {
			return
		}
		m.inInit++
		fi := m.prog.info(initFn)
		m.callInfo(nil, fi, nil, nil)
		m.inInit--
		return
	}
	stores := pl.stores[g]
	if fs := pl.funcs[g]; len(fs) > 0 {
		defer func() {
			for _, f := range fs {
				if m.initDone[f] {
					continue
				}
				m.initDone[f] = true
				m.inInit++
				old := m.cur.top
				m.callInfo(nil, m.prog.info(f), nil, nil)
				m.cur.top = old
				m.inInit--
			}
		}()
	}
	if len(stores) == 0 {
		return
	}
	if stores[0] < 0 {
		if m.inited[pkg] != 0 {
			return
		}
		m.inited[pkg] = 1
		m.inInit++
		old := m.cur.top
		m.callInfo(nil, m.prog.info(pkg.Func("init")), nil, nil)
		m.cur.top = old
		m.inInit--
		return
	}
	// evaluate the backward slice of the stores in a scratch frame
	fi := m.prog.info(pkg.Func("init"))
	fr := &frame{m: m, fi: fi, prev: -1, blk: 0}
	fr.regs = make([]value, fi.nregs)
	old := m.cur.top
	m.cur.top = fr
	m.inInit++
	for _, i := range stores {
		fr.ip = i
		fi.blocks[pl.block].body[i](fr)
	}
	m.inInit--
	m.cur.top = old
}
