package main

// Translation of SSA functions into closures executed symbolically.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type getter func(fr *frame) value
type action func(fr *frame)

type phiInfo struct {
	reg   int
	edges []getter
}

type blockInfo struct {
	idx   int
	preds []int
	phis  []phiInfo
	body  []action
	pos   []token.Pos
	term  func(fr *frame) int // next block, -1: return
	n     int
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nregs    int
	blocks   []*blockInfo
	hasDefer bool
	recover  int
	once     sync.Once
	compiled bool
	intr     intrinsic
	err      string
	prog     *Program
	nparams  int
	zeros    []value
}

type deferred struct {
	fn   value
	args []value
	bi   *ssa.Builtin
}

type frame struct {
	m        *Machine
	fi       *fnInfo
	regs     []value
	env      []value
	caller   *frame
	blk      int
	prev     int
	ip       int
	defers   []deferred
	result   value
	panic_   *targetPanic
	panicing bool
	depth    int
}

func (fr *frame) curPos() string {
	if fr.blk < 0 || fr.blk >= len(fr.fi.blocks) {
		return ""
	}
	b := fr.fi.blocks[fr.blk]
	for i := fr.ip; i >= 0; i-- {
		if i < len(b.pos) && b.pos[i].IsValid() {
			p := fr.m.prog.fset.Position(b.pos[i])
			f := p.Filename
			if k := strings.LastIndex(f, "/"); k >= 0 {
				f = f[k+1:]
			}
			return fmt.Sprintf("%s:%d", f, p.Line)
		}
	}
	return ""
}

type compiler struct {
	p    *Program
	fi   *fnInfo
	regs map[ssa.Value]int
	fv   map[*ssa.FreeVar]int
}

func (p *Program) info(fn *ssa.Function) *fnInfo {
	v, ok := p.infos.Load(fn)
	if !ok {
		fi := &fnInfo{fn: fn, name: fnName(fn), prog: p}
		v, _ = p.infos.LoadOrStore(fn, fi)
	}
	fi := v.(*fnInfo)
	fi.once.Do(func() { p.compile(fi) })
	return fi
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (p *Program) compile(fi *fnInfo) {
	fn := fi.fn
	if sub, ok := p.subst[fi.name]; ok && sub != fn {
		si := p.info(sub)
		fi.intr = func(fr *frame, args []value) value { return fr.m.callInfo(fr, si, args, nil) }
		return
	}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
		return
	}
	if fn.Pkg != nil {
		p.build(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		p.build(o.Pkg)
	}
	if fn.Blocks == nil {
		fi.err = "no body for " + fi.name
		return
	}
	c := &compiler{p: p, fi: fi, regs: map[ssa.Value]int{}, fv: map[*ssa.FreeVar]int{}}
	for i, fv := range fn.FreeVars {
		c.fv[fv] = i
	}
	for _, prm := range fn.Params {
		c.reg(prm)
	}
	fi.nparams = len(fn.Params)
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg(v)
			}
			switch in.(type) {
			case *ssa.Defer:
				fi.hasDefer = true
			}
		}
	}
	for _, b := range fn.Blocks {
		bi := &blockInfo{idx: b.Index}
		for _, pb := range b.Preds {
			bi.preds = append(bi.preds, pb.Index)
		}
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				ph := phiInfo{reg: c.regs[in]}
				for _, e := range in.Edges {
					ph.edges = append(ph.edges, c.get(e))
				}
				bi.phis = append(bi.phis, ph)
			case *ssa.If:
				cond := c.get(in.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				bi.pos = append(bi.pos, in.Cond.Pos())
				bi.term = func(fr *frame) int {
					if fr.m.branch(cond(fr).(*Term)) {
						return t
					}
					return f
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				bi.term = func(fr *frame) int { return t }
			case *ssa.Return:
				bi.pos = append(bi.pos, in.Pos())
				var gs []getter
				for _, r := range in.Results {
					gs = append(gs, c.get(r))
				}
				bi.term = func(fr *frame) int {
					switch len(gs) {
					case 0:
					case 1:
						fr.result = gs[0](fr)
					default:
						t := make(tuple, len(gs))
						for i, g := range gs {
							t[i] = g(fr)
						}
						fr.result = t
					}
					return -1
				}
			case *ssa.Panic:
				x := c.get(in.X)
				bi.pos = append(bi.pos, in.Pos())
				bi.term = func(fr *frame) int {
					v := x(fr).(iface)
					if v.t == nil {
						fr.m.goPanicStr("panic called with nil argument")
					}
					fr.m.goPanic(v)
					return -1
				}
			case *ssa.DebugRef:
			default:
				a := c.instr(in)
				if a != nil {
					bi.body = append(bi.body, a)
					bi.pos = append(bi.pos, in.Pos())
				}
			}
		}
		bi.n = len(bi.body) + 1
		fi.blocks = append(fi.blocks, bi)
	}
	fi.nregs = len(c.regs)
	fi.compiled = true
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := len(c.regs)
	c.regs[v] = i
	return i
}

func (p *Program) constVal(k *ssa.Const) value {
	t := k.Type()
	if k.Value == nil {
		return zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(k.Value))
		case u.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			i, _ := constant.Int64Val(k.Value)
			return string(rune(i))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(k.Value))
			if width(t) == FP32 {
				f32, _ := constant.Float32Val(constant.ToFloat(k.Value))
				return FPc32(f32)
			}
			return FPc64(f)
		case u.Info()&types.IsInteger != 0:
			kv := constant.ToInt(k.Value)
			if i, ok := constant.Int64Val(kv); ok {
				return BV(width(t), uint64(i))
			}
			u64, _ := constant.Uint64Val(kv)
			return BV(width(t), u64)
		case u.Kind() == types.UnsafePointer:
			return unsafePtr{}
		}
		return opaque{"const", k.Value.String()}
	}
	return zero(t)
}

func (c *compiler) get(v ssa.Value) getter {
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Const:
		k := c.p.constVal(v)
		if !isFlat(v.Type()) {
			t := v.Type()
			return func(fr *frame) value { return zero(t) }
		}
		return func(fr *frame) value { return k }
	case *ssa.Global:
		return func(fr *frame) value { return fr.m.global(v) }
	case *ssa.Function:
		return func(fr *frame) value { return v }
	case *ssa.Builtin:
		return func(fr *frame) value { return v }
	case *ssa.FreeVar:
		i := c.fv[v]
		return func(fr *frame) value { return fr.env[i] }
	}
	i := c.reg(v)
	return func(fr *frame) value { return fr.regs[i] }
}

func (c *compiler) gets(vs []ssa.Value) []getter {
	out := make([]getter, len(vs))
	for i, v := range vs {
		out[i] = c.get(v)
	}
	return out
}

func onlyLoadStore(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != v || r.Val == v {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (c *compiler) instr(in ssa.Instruction) action {
	var dst int
	if v, ok := in.(ssa.Value); ok {
		dst = c.regs[v]
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) {
			p := new(value)
			*p = zero(t)
			fr.regs[dst] = p
		}
	case *ssa.BinOp:
		x, y := c.get(in.X), c.get(in.Y)
		op, t, yt := in.Op, in.X.Type(), in.Y.Type()
		return func(fr *frame) { fr.regs[dst] = fr.m.binop(op, t, yt, x(fr), y(fr)) }
	case *ssa.UnOp:
		x := c.get(in.X)
		switch in.Op {
		case token.MUL:
			flat := isFlat(in.Type())
			t := in.Type()
			return func(fr *frame) {
				v := fr.m.load(x(fr), t)
				if !flat {
					v = copyVal(v)
				}
				fr.regs[dst] = v
			}
		case token.ARROW:
			ok := in.CommaOk
			et := in.X.Type().Underlying().(*types.Chan).Elem()
			return func(fr *frame) {
				v, o := fr.m.chanRecv(x(fr).(*chanV), et)
				if ok {
					fr.regs[dst] = tuple{v, Bool(o)}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		op, t := in.Op, in.X.Type()
		return func(fr *frame) { fr.regs[dst] = fr.m.unop(op, t, x(fr)) }
	case *ssa.Call:
		call := c.call(&in.Call)
		return func(fr *frame) { fr.regs[dst] = call(fr) }
	case *ssa.ChangeInterface:
		x := c.get(in.X)
		return func(fr *frame) { fr.regs[dst] = x(fr) }
	case *ssa.ChangeType:
		x := c.get(in.X)
		return func(fr *frame) { fr.regs[dst] = x(fr) }
	case *ssa.Convert:
		x := c.get(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) { fr.regs[dst] = fr.m.convert(from, to, x(fr)) }
	case *ssa.MultiConvert:
		x := c.get(in.X)
		from, to := in.X.Type(), in.Type()
		return func(fr *frame) { fr.regs[dst] = fr.m.convert(from, to, x(fr)) }
	case *ssa.SliceToArrayPointer:
		x := c.get(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := x(fr).([]value)
			if len(s) < n {
				fr.m.goPanicStr(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n))
			}
			if s == nil {
				fr.regs[dst] = (*value)(nil)
				return
			}
			p := new(value)
			*p = array(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.MakeInterface:
		x, t := c.get(in.X), in.X.Type()
		flat := isFlat(t)
		return func(fr *frame) {
			v := x(fr)
			if !flat {
				v = copyVal(v)
			}
			fr.regs[dst] = iface{t, v}
		}
	case *ssa.Extract:
		x, i := c.get(in.Tuple), in.Index
		return func(fr *frame) { fr.regs[dst] = x(fr).(tuple)[i] }
	case *ssa.Slice:
		return c.slice(in, dst)
	case *ssa.FieldAddr:
		x, f := c.get(in.X), in.Field
		return func(fr *frame) {
			p := fr.m.ptr(x(fr))
			s, ok := (*p).(structure)
			if !ok {
				fr.m.unsupported("field of %T", *p)
			}
			fr.regs[dst] = &s[f]
		}
	case *ssa.Field:
		x, f := c.get(in.X), in.Field
		return func(fr *frame) { fr.regs[dst] = x(fr).(structure)[f] }
	case *ssa.IndexAddr:
		x, i := c.get(in.X), c.get(in.Index)
		direct := onlyLoadStore(in)
		isSlice := true
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			isSlice = false
		}
		var et types.Type = in.Type().Underlying().(*types.Pointer).Elem()
		direct = direct && isFlat(et)
		if direct {
			b, ok := et.Underlying().(*types.Basic)
			direct = ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0
		}
		signed := isSigned(in.Index.Type())
		return func(fr *frame) {
			var s []value
			if isSlice {
				s = x(fr).([]value)
			} else {
				p := fr.m.ptr(x(fr))
				s = []value((*p).(array))
			}
			it := i(fr).(*Term)
			if it.isConst() {
				k := sx(it.val, it.w)
				if !signed {
					k = int64(it.val)
				}
				if k < 0 || k >= int64(len(s)) {
					fr.m.indexPanic(k, len(s))
				}
				fr.regs[dst] = &s[k]
				return
			}
			fr.m.checkIndex(it, signed, len(s))
			if direct {
				fr.regs[dst] = &symRef{s, it}
				return
			}
			fr.regs[dst] = &s[fr.m.concretize(it, "index")]
		}
	case *ssa.Index:
		x, i := c.get(in.X), c.get(in.Index)
		signed := isSigned(in.Index.Type())
		return func(fr *frame) {
			xv := x(fr)
			it := i(fr).(*Term)
			var n int
			switch s := xv.(type) {
			case array:
				n = len(s)
			default:
				n = strLen(xv)
			}
			if it.isConst() {
				k := sx(it.val, it.w)
				if !signed {
					k = int64(it.val)
				}
				if k < 0 || k >= int64(n) {
					fr.m.indexPanic(k, n)
				}
				switch s := xv.(type) {
				case array:
					fr.regs[dst] = s[k]
				case string:
					fr.regs[dst] = BV(8, uint64(s[k]))
				case *symStr:
					fr.regs[dst] = s.b[k]
				}
				return
			}
			fr.m.checkIndex(it, signed, n)
			switch s := xv.(type) {
			case array:
				fr.regs[dst] = fr.m.symIndex([]value(s), it)
			default:
				b := strBytes(xv)
				vs := make([]value, len(b))
				for j := range b {
					vs[j] = b[j]
				}
				fr.regs[dst] = fr.m.symIndex(vs, it)
			}
		}
	case *ssa.Lookup:
		x, i := c.get(in.X), c.get(in.Index)
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			et, ck := mt.Elem(), in.CommaOk
			return func(fr *frame) {
				mp := x(fr).(*smap)
				k := i(fr)
				fr.m.checkHashable(mt.Key(), k)
				fr.m.mapRace(mp, false)
				e := fr.m.mapFind(mp, k)
				var v value
				if e != nil {
					v = copyVal(e.val)
				} else {
					v = zero(et)
				}
				if ck {
					fr.regs[dst] = tuple{v, Bool(e != nil)}
				} else {
					fr.regs[dst] = v
				}
			}
		}
		return func(fr *frame) { // string index
			xv := x(fr)
			it := i(fr).(*Term)
			n := strLen(xv)
			if it.isConst() {
				k := int64(it.val)
				if k < 0 || k >= int64(n) {
					fr.m.indexPanic(k, n)
				}
				fr.regs[dst] = strBytes(strSlice(xv, int(k), int(k)+1))[0]
				return
			}
			fr.m.checkIndex(it, true, n)
			b := strBytes(xv)
			vs := make([]value, len(b))
			for j := range b {
				vs[j] = b[j]
			}
			fr.regs[dst] = fr.m.symIndex(vs, it)
		}
	case *ssa.MapUpdate:
		mg, k, v := c.get(in.Map), c.get(in.Key), c.get(in.Value)
		kt := in.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mp := mg(fr).(*smap)
			if mp == nil {
				fr.m.goPanic(iface{fr.m.prog.plainErrT, "assignment to entry in nil map"})
			}
			kv := k(fr)
			fr.m.checkHashable(kt, kv)
			fr.m.mapRace(mp, true)
			fr.m.mapSet(mp, kv, v(fr))
		}
	case *ssa.MakeMap:
		kt := in.Type().Underlying().(*types.Map).Key()
		if in.Reserve == nil {
			return func(fr *frame) { fr.regs[dst] = newMap(kt) }
		}
		n := c.get(in.Reserve)
		sg := isSigned(in.Reserve.Type())
		vt := in.Type().Underlying().(*types.Map).Elem()
		return func(fr *frame) {
			fr.m.checkMapSize(fr.m.ext(n(fr).(*Term), 64, sg), kt, vt)
			fr.regs[dst] = newMap(kt)
		}
	case *ssa.MakeSlice:
		l, cp := c.get(in.Len), c.get(in.Cap)
		et := in.Type().Underlying().(*types.Slice).Elem()
		ls, cs := in.Len.Type(), in.Cap.Type()
		return func(fr *frame) {
			fr.regs[dst] = fr.m.makeSlice(et, l(fr).(*Term), cp(fr).(*Term), isSigned(ls), isSigned(cs))
		}
	case *ssa.MakeChan:
		sz := c.get(in.Size)
		return func(fr *frame) {
			n := int64(fr.m.concretize(sz(fr).(*Term), "channel size"))
			if n < 0 {
				fr.m.goPanicStr("makechan: size out of range")
			}
			fr.regs[dst] = &chanV{cap: int(n)}
		}
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		gs := c.gets(in.Bindings)
		return func(fr *frame) {
			env := make([]value, len(gs))
			for i, g := range gs {
				env[i] = g(fr)
			}
			fr.regs[dst] = &closure{fn, env}
		}
	case *ssa.Store:
		a, v := c.get(in.Addr), c.get(in.Val)
		flat := isFlat(in.Val.Type())
		t := in.Val.Type()
		return func(fr *frame) { fr.m.store(a(fr), v(fr), flat, t) }
	case *ssa.Send:
		ch, v := c.get(in.Chan), c.get(in.X)
		return func(fr *frame) { fr.m.chanSend(ch(fr).(*chanV), copyVal(v(fr))) }
	case *ssa.TypeAssert:
		x := c.get(in.X)
		at, ck := in.AssertedType, in.CommaOk
		return func(fr *frame) {
			v := x(fr).(iface)
			r, ok, why := fr.m.typeAssert(v, at)
			if ck {
				if !ok {
					r = zero(at)
				}
				fr.regs[dst] = tuple{r, Bool(ok)}
				return
			}
			if !ok {
				fr.m.goPanicStr(why)
			}
			fr.regs[dst] = r
		}
	case *ssa.Range:
		x := c.get(in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			free := orderFree(in)
			return func(fr *frame) {
				mp := x(fr).(*smap)
				fr.m.mapRace(mp, false)
				if free {
					fr.regs[dst] = &mapIter{mp: mp, todo: mp.list(), rev: 1}
					return
				}
				fr.regs[dst] = fr.m.newMapIter(mp)
			}
		}
		return func(fr *frame) { fr.regs[dst] = &strIter{s: x(fr)} }
	case *ssa.Next:
		x := c.get(in.Iter)
		if in.IsString {
			return func(fr *frame) { fr.regs[dst] = x(fr).(*strIter).next(fr.m) }
		}
		tt := in.Type().(*types.Tuple)
		kt, vt := tt.At(1).Type(), tt.At(2).Type()
		return func(fr *frame) { fr.regs[dst] = x(fr).(*mapIter).next(fr.m, kt, vt) }
	case *ssa.RunDefers:
		return func(fr *frame) { fr.runDefers() }
	case *ssa.Defer:
		f := c.prep(&in.Call)
		return func(fr *frame) {
			fn, args := f(fr)
			fr.defers = append(fr.defers, deferred{fn: fn, args: args})
		}
	case *ssa.Go:
		f := c.prep(&in.Call)
		return func(fr *frame) {
			fn, args := f(fr)
			fr.m.spawn(fn, args)
		}
	case *ssa.Select:
		return c.selectInstr(in, dst)
	}
	panic(engineBug("instruction %T", in))
}

func (c *compiler) slice(in *ssa.Slice, dst int) action {
	x := c.get(in.X)
	var lo, hi, mx getter
	if in.Low != nil {
		lo = c.get(in.Low)
	}
	if in.High != nil {
		hi = c.get(in.High)
	}
	if in.Max != nil {
		mx = c.get(in.Max)
	}
	idx := func(fr *frame, g getter, v ssa.Value, why string) int64 {
		t := g(fr).(*Term)
		if v != nil && !isSigned(v.Type()) && t.w < 64 {
			t = fr.m.tt.ZExt(t, 64)
		}
		k := fr.m.concretize(t, why)
		return sx(k, t.w)
	}
	return func(fr *frame) {
		xv := x(fr)
		m := fr.m
		var base []value
		var n, cp int
		str := false
		switch s := xv.(type) {
		case []value:
			base, n, cp = s, len(s), cap(s)
		case *value:
			p := m.ptr(s)
			a := (*p).(array)
			base, n, cp = []value(a), len(a), len(a)
		default:
			str = true
			n = strLen(xv)
			cp = n
		}
		// symbolic bounds: decide validity first so that the panic is one path
		l, h, mm := int64(0), int64(n), int64(cp)
		chk := func(g getter, v ssa.Value, limit int64) {
			if g == nil {
				return
			}
			t := g(fr).(*Term)
			if t.isConst() {
				return
			}
			ok := m.tt.Ule(m.ext(t, 64, isSigned(v.Type())), BV(64, uint64(limit)))
			if !m.branch(ok) {
				m.goPanicStr("slice bounds out of range")
			}
		}
		chk(mx, in.Max, int64(cp))
		chk(hi, in.High, int64(cp))
		chk(lo, in.Low, int64(cp))
		if mx != nil {
			mm = idx(fr, mx, in.Max, "slice max")
		}
		if hi != nil {
			h = idx(fr, hi, in.High, "slice high")
		}
		if lo != nil {
			l = idx(fr, lo, in.Low, "slice low")
		}
		if mm < 0 || mm > int64(cp) {
			m.goPanicStr(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mm, cp))
		}
		if h < 0 || h > mm {
			if str {
				m.goPanicStr(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			m.goPanicStr(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, cp))
		}
		if l < 0 || l > h {
			m.goPanicStr(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if str {
			fr.regs[dst] = strSlice(xv, int(l), int(h))
			return
		}
		if base == nil {
			fr.regs[dst] = []value(nil)
			return
		}
		fr.regs[dst] = base[l:h:mm]
	}
}

func (c *compiler) selectInstr(in *ssa.Select, dst int) action {
	type st struct {
		send bool
		ch   getter
		v    getter
		et   types.Type
	}
	var sts []st
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly, ch: c.get(s.Chan), et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.v = c.get(s.Send)
		}
		sts = append(sts, x)
	}
	blocking := in.Blocking
	return func(fr *frame) {
		cs := make([]selCase, len(sts))
		for i, s := range sts {
			cs[i] = selCase{send: s.send, ch: s.ch(fr).(*chanV), et: s.et}
			if s.send {
				cs[i].v = copyVal(s.v(fr))
			}
		}
		i, v, ok := fr.m.selectOp(cs, blocking)
		t := tuple{BV(64, uint64(int64(i))), Bool(ok)}
		for j, s := range sts {
			if s.send {
				continue
			}
			if j == i {
				if v == nil {
					v = zero(s.et)
				}
				t = append(t, v)
			} else {
				t = append(t, zero(s.et))
			}
		}
		fr.regs[dst] = t
	}
}

// prep evaluates callee and arguments (go/defer).
func (c *compiler) prep(cc *ssa.CallCommon) func(fr *frame) (value, []value) {
	args := c.gets(cc.Args)
	flats := make([]bool, len(cc.Args))
	for i, a := range cc.Args {
		flats[i] = isFlat(a.Type())
	}
	ev := func(fr *frame, pre ...value) []value {
		out := make([]value, 0, len(args)+len(pre))
		out = append(out, pre...)
		for i, g := range args {
			v := g(fr)
			if !flats[i] {
				v = copyVal(v)
			}
			out = append(out, v)
		}
		return out
	}
	if cc.IsInvoke() {
		x := c.get(cc.Value)
		meth := cc.Method
		return func(fr *frame) (value, []value) {
			recv := x(fr).(iface)
			fn := fr.m.lookup(recv, meth)
			return fn, ev(fr, recv.v)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		ts := make([]types.Type, len(cc.Args))
		for i, a := range cc.Args {
			ts[i] = a.Type()
		}
		rt := cc.Signature().Results()
		return func(fr *frame) (value, []value) {
			return &builtinCall{b, ts, rt}, ev(fr)
		}
	}
	f := c.get(cc.Value)
	return func(fr *frame) (value, []value) { return f(fr), ev(fr) }
}

type builtinCall struct {
	b  *ssa.Builtin
	ts []types.Type
	rt *types.Tuple
}

func (c *compiler) call(cc *ssa.CallCommon) getter {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc)
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		args := c.gets(cc.Args)
		flats := make([]bool, len(cc.Args))
		for i, a := range cc.Args {
			flats[i] = isFlat(a.Type())
		}
		p := c.p
		var fi *fnInfo
		var once sync.Once
		return func(fr *frame) value {
			once.Do(func() { fi = p.info(fn) })
			av := make([]value, len(args))
			for i, g := range args {
				v := g(fr)
				if !flats[i] {
					v = copyVal(v)
				}
				av[i] = v
			}
			return fr.m.callInfo(fr, fi, av, nil)
		}
	}
	prep := c.prep(cc)
	return func(fr *frame) value {
		f, a := prep(fr)
		return fr.m.callValue(fr, f, a)
	}
}

func (m *Machine) callValue(fr *frame, f value, args []value) value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			m.nilDeref()
		}
		return m.callInfo(fr, m.prog.info(f), args, nil)
	case *closure:
		if f == nil {
			m.nilDeref()
		}
		return m.callInfo(fr, m.prog.info(f.fn), args, f.env)
	case *nativeFn:
		return f.f(m, args)
	case *builtinCall:
		return m.builtin(fr, f.b.Name(), args, f.ts, f.rt)
	case nil:
		m.nilDeref()
	}
	panic(engineBug("call of %T", f))
}

func (m *Machine) nilDeref() {
	m.goPanicStr("invalid memory address or nil pointer dereference")
}

func (m *Machine) callInfo(caller *frame, fi *fnInfo, args []value, env []value) value {
	if !m.funcs[fi.fn] {
		m.funcs[fi.fn] = true
	}
	if fi.intr != nil {
		return fi.intr(caller, args)
	}
	if fi.err != "" {
		m.unsupported("%s", fi.err)
	}
	if caller != nil && fi.fn.Synthetic == "package initializer" {
		return nil
	}
	fr := &frame{m: m, fi: fi, env: env, caller: caller, prev: -1}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 3000 {
			m.stop("violation-stack", "stack depth over 3000 calls at %s", m.where())
		}
	}
	fr.regs = make([]value, fi.nregs)
	copy(fr.regs, args)
	g := m.cur
	old := g.top
	g.top = fr
	if !fi.hasDefer {
		fr.loop()
	} else {
		for fr.blk >= 0 {
			fr.loopRecover()
		}
	}
	g.top = old
	return fr.result
}

func (fr *frame) loop() {
	m := fr.m
	for fr.blk >= 0 {
		b := fr.fi.blocks[fr.blk]
		m.steps += b.n
		if m.steps > m.maxSteps {
			m.stop("steps", "more than %d instructions at %s", m.maxSteps, m.where())
		}
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.regs[b.phis[0].reg] = b.phis[0].edges[pi](fr)
			} else {
				tmp := make([]value, len(b.phis))
				for i := range b.phis {
					tmp[i] = b.phis[i].edges[pi](fr)
				}
				for i := range b.phis {
					fr.regs[b.phis[i].reg] = tmp[i]
				}
			}
		}
		for i, a := range b.body {
			fr.ip = i
			a(fr)
		}
		fr.ip = len(b.body)
		next := b.term(fr)
		fr.prev = fr.blk
		fr.blk = next
	}
}

func (fr *frame) loopRecover() {
	g := fr.m.cur
	defer func() {
		if fr.blk < 0 {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		g.top = fr
		fr.panicing = true
		fr.panic_ = tp
		fr.runDefers()
		// recovered
		fr.prev = fr.blk
		if fr.fi.recover >= 0 {
			fr.blk = fr.fi.recover
		} else {
			fr.result = zeroResult(fr.fi.fn)
			fr.blk = -1
		}
	}()
	fr.loop()
}

func zeroResult(fn *ssa.Function) value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return zero(rs.At(0).Type())
	}
	return zero(rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicing {
		panic(fr.panic_)
	}
}

func (fr *frame) runDefer(d deferred) {
	done := false
	g := fr.m.cur
	defer func() {
		if done {
			return
		}
		r := recover()
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		g.top = fr
		fr.panicing = true
		fr.panic_ = tp
	}()
	fr.m.callValue(fr, d.fn, d.args)
	done = true
}

// ---------- builtins ----------

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon) getter {
	args := c.gets(cc.Args)
	name := b.Name()
	ts := make([]types.Type, len(cc.Args))
	for i, a := range cc.Args {
		ts[i] = a.Type()
	}
	rt := cc.Signature().Results()
	switch name {
	case "len":
		x := args[0]
		return func(fr *frame) value {
			switch v := x(fr).(type) {
			case []value:
				return BV(64, uint64(len(v)))
			case string:
				return BV(64, uint64(len(v)))
			case *symStr:
				return BV(64, uint64(len(v.b)))
			default:
				return fr.m.builtin(fr, "len", []value{v}, ts, rt)
			}
		}
	}
	return func(fr *frame) value {
		av := make([]value, len(args))
		for i, g := range args {
			av[i] = g(fr)
		}
		return fr.m.builtin(fr, name, av, ts, rt)
	}
}

func (m *Machine) builtin(fr *frame, name string, a []value, ts []types.Type, rt *types.Tuple) value {
	switch name {
	case "len", "cap":
		switch v := a[0].(type) {
		case []value:
			if name == "len" {
				return BV(64, uint64(len(v)))
			}
			return BV(64, uint64(cap(v)))
		case string, *symStr:
			return BV(64, uint64(strLen(v)))
		case array:
			return BV(64, uint64(len(v)))
		case *value:
			return BV(64, uint64(ts[0].Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()))
		case *smap:
			if v == nil {
				return BV(64, 0)
			}
			m.mapRace(v, false)
			return BV(64, uint64(v.n))
		case *chanV:
			m.schedPoint("len(chan)")
			if v == nil {
				return BV(64, 0)
			}
			if name == "len" {
				return BV(64, uint64(len(v.buf)))
			}
			return BV(64, uint64(v.cap))
		}
	case "append":
		if len(a) == 1 {
			return a[0]
		}
		et := ts[0].Underlying().(*types.Slice).Elem()
		var add []value
		switch s := a[1].(type) {
		case []value:
			add = s
		default:
			for _, t := range strBytes(s) {
				add = append(add, t)
			}
		}
		r := m.appendSlice(et, a[0].([]value), add)
		m.checkAlloc(cap(r), et)
		return r
	case "copy":
		dst := a[0].([]value)
		et := ts[0].Underlying().(*types.Slice).Elem()
		var src []value
		switch s := a[1].(type) {
		case []value:
			src = s
		default:
			for _, t := range strBytes(s) {
				src = append(src, t)
			}
		}
		m.copyElems(et, dst, src)
		m.steps += min(len(dst), len(src)) / 8
		return BV(64, uint64(min(len(dst), len(src))))
	case "close":
		m.chanClose(a[0].(*chanV))
		return nil
	case "delete":
		mp := a[0].(*smap)
		if mp != nil {
			m.mapRace(mp, true)
		}
		m.mapDelete(mp, a[1])
		return nil
	case "clear":
		switch v := a[0].(type) {
		case *smap:
			if v != nil {
				m.mapRace(v, true)
			}
			m.mapClear(v)
		case []value:
			et := ts[0].Underlying().(*types.Slice).Elem()
			for i := range v {
				assign(&v[i], zero(et))
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking one
		if fr.caller != nil && fr.caller.panicing {
			fr.caller.panicing = false
			v := fr.caller.panic_.v
			fr.caller.panic_ = nil
			return v
		}
		return iface{}
	case "min", "max":
		r := a[0]
		for i := 1; i < len(a); i++ {
			t := ts[0]
			var less *Term
			if isString(t) {
				less = m.strLess(a[i], r, false)
				if name == "max" {
					less = m.strLess(r, a[i], false)
				}
				if m.branch(less) {
					r = a[i]
				}
				continue
			}
			x, y := a[i].(*Term), r.(*Term)
			if name == "max" {
				less = m.less(t, y, x)
			} else {
				less = m.less(t, x, y)
			}
			r = m.tt.Ite(less, x, y)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := a[0].(*value); ok && p == nil {
			m.goPanicStr(fmt.Sprintf("value method %s.%s called using nil pointer", concStr(a[1]), concStr(a[2])))
		}
		return a[0]
	case "real", "imag", "complex":
		m.unsupported("complex numbers")
	case "Sizeof":
		return BV(64, uint64(stdSizes.Sizeof(ts[0])))
	case "Alignof":
		return BV(64, uint64(stdSizes.Alignof(ts[0])))
	case "String", "Slice", "StringData", "SliceData", "Add":
		return m.unsafeBuiltin(name, a, ts)
	}
	m.unsupported("builtin %s", name)
	return nil
}

func (m *Machine) unsafeBuiltin(name string, a []value, ts []types.Type) value {
	switch name {
	case "SliceData":
		s := a[0].([]value)
		if cap(s) == 0 {
			return (*value)(nil)
		}
		return &sliceDataPtr{s[:cap(s)]}
	case "StringData":
		b := strBytes(a[0])
		s := make([]value, len(b))
		for i := range b {
			s[i] = b[i]
		}
		return &sliceDataPtr{s}
	case "String", "Slice":
		n := int(int64(m.concretize(a[1].(*Term), "unsafe length")))
		var s []value
		switch p := a[0].(type) {
		case *sliceDataPtr:
			s = p.s
		case *value:
			if n == 0 {
				if name == "String" {
					return ""
				}
				if p == nil {
					return []value(nil)
				}
				return []value{}
			}
			m.unsupported("unsafe.%s of a plain pointer", name)
		}
		if n > len(s) {
			m.unsupported("unsafe.%s beyond data", name)
		}
		if name == "Slice" {
			return s[:n]
		}
		b := make([]*Term, n)
		for i := range b {
			b[i] = s[i].(*Term)
		}
		return mkStr(b)
	}
	m.unsupported("unsafe.%s", name)
	return nil
}

type sliceDataPtr struct{ s []value }

var _ = math.MaxInt
