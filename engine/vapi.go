package main

// Intrinsics of the harness package recengine/internal/zzverif/v.

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const vpkg = zzPrefix + "v."

func (m *Machine) boolSlice(a value) []*Term {
	var out []*Term
	for _, x := range a.([]value) {
		out = append(out, x.(*Term))
	}
	return out
}

// obsText renders an observed value under the path's model.
func (m *Machine) obsText(v value, t types.Type) string {
	switch x := v.(type) {
	case *Term:
		u := x.eval(m.model, m.ecache)
		if x.w == 0 {
			return strconv.FormatBool(u != 0)
		}
		if x.w >= FP32 {
			return fmt.Sprintf("%x", u)
		}
		if isSigned(t) {
			return strconv.FormatInt(sx(u, x.w), 10)
		}
		return strconv.FormatUint(u, 10)
	case string, *symStr:
		b := strBytes(x)
		buf := make([]byte, len(b))
		for i := range b {
			buf[i] = byte(b[i].eval(m.model, m.ecache))
		}
		return strconv.Quote(string(buf))
	case []value:
		st, ok := t.Underlying().(*types.Slice)
		if !ok {
			return "?"
		}
		var sb strings.Builder
		sb.WriteString("[")
		for i, e := range x {
			if i > 0 {
				sb.WriteString(" ")
			}
			sb.WriteString(m.obsText(e, st.Elem()))
		}
		sb.WriteString("]")
		return sb.String()
	case iface:
		if x.t == nil {
			return "nil"
		}
		return "err"
	}
	return "?"
}

func init() {
	num := func(name string, w uint8) {
		reg(vpkg+name, func(fr *frame, a []value) value { return fr.m.fresh(concStr(a[0]), w) })
	}
	num("U64", 64)
	num("U32", 32)
	num("U16", 16)
	num("U8", 8)
	num("I64", 64)
	reg(vpkg+"Bool", func(fr *frame, a []value) value {
		return fr.m.tt.Eq(fr.m.fresh(concStr(a[0]), 1), BV(1, 1))
	})
	reg(vpkg+"F32", func(fr *frame, a []value) value {
		return fr.m.tt.FromBits(fr.m.fresh(concStr(a[0]), 32))
	})
	reg(vpkg+"Int", func(fr *frame, a []value) value {
		m := fr.m
		t := m.fresh(concStr(a[0]), 64)
		m.assume(m.tt.And(m.tt.Sle(a[1].(*Term), t), m.tt.Sle(t, a[2].(*Term))))
		return t
	})
	reg(vpkg+"Choose", func(fr *frame, a []value) value {
		n := a[1].(*Term)
		return BV(64, uint64(fr.m.freshChoice(concStr(a[0]), int(n.val))))
	})
	reg(vpkg+"Bytes", func(fr *frame, a []value) value {
		m := fr.m
		n := int(a[1].(*Term).val)
		out := make([]value, n)
		for i := range out {
			out[i] = m.fresh(concStr(a[0]), 8)
		}
		return out
	})
	reg(vpkg+"String", func(fr *frame, a []value) value {
		m := fr.m
		n := int(a[1].(*Term).val)
		out := make([]*Term, n)
		for i := range out {
			out[i] = m.fresh(concStr(a[0]), 8)
		}
		return mkStr(out)
	})
	reg(vpkg+"Assume", func(fr *frame, a []value) value { fr.m.assume(a[0].(*Term)); return nil })
	reg(vpkg+"Assert", func(fr *frame, a []value) value {
		fr.m.assert(a[0].(*Term), concStr(a[1]))
		return nil
	})
	reg(vpkg+"Known", func(fr *frame, a []value) value {
		m := fr.m
		id := concStr(a[0])
		c := a[1].(*Term)
		if !m.x.knownFindings[id] {
			m.assert(c, concStr(a[2]))
			return nil
		}
		// a recorded finding: report it and go on where it does not occur
		m.asserted++
		m.x.asserts.Add(1)
		if !m.branch(c) {
			m.x.noteKnown(id, concStr(a[2]))
			m.stop("known", "%s", id)
		}
		return nil
	})
	reg(vpkg+"Fail", func(fr *frame, a []value) value {
		fr.m.asserted++
		fr.m.x.asserts.Add(1)
		fr.m.violate("assert", concStr(a[0]), fr.m.model)
		return nil
	})
	reg(vpkg+"Stop", func(fr *frame, a []value) value { fr.m.stop("done", ""); return nil })
	reg(vpkg+"Reach", func(fr *frame, a []value) value { fr.m.reached[concStr(a[0])] = true; return nil })
	reg(vpkg+"Obs", func(fr *frame, a []value) value {
		m := fr.m
		var ts []types.Type
		var vs []value
		for _, x := range a[1].([]value) {
			i := x.(iface)
			if i.t != nil {
				if types.IsInterface(i.t) {
					i.t = nil
				}
			}
			v := i.v
			t := i.t
			if t == nil {
				v = iface{}
			} else if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				v = i
			} else if m.prog.methodByName(t, "Error") != nil {
				v = i
			} else if s, ok := v.([]value); ok {
				v = append([]value{}, s...)
			}
			ts = append(ts, t)
			vs = append(vs, v)
		}
		m.obs = append(m.obs, obsRec{label: concStr(a[0]), vals: vs, types: ts})
		return nil
	})
	reg(vpkg+"And", func(fr *frame, a []value) value {
		r := tTrue
		for _, t := range fr.m.boolSlice(a[0]) {
			r = fr.m.tt.And(r, t)
		}
		return r
	})
	reg(vpkg+"Or", func(fr *frame, a []value) value {
		r := tFalse
		for _, t := range fr.m.boolSlice(a[0]) {
			r = fr.m.tt.Or(r, t)
		}
		return r
	})
	reg(vpkg+"Implies", func(fr *frame, a []value) value {
		return fr.m.tt.Or(fr.m.tt.Not(a[0].(*Term)), a[1].(*Term))
	})
	ite := func(fr *frame, a []value) value { return fr.m.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) }
	reg(vpkg+"IteU64 "+vpkg+"IteInt "+vpkg+"IteBool "+vpkg+"IteU8 "+vpkg+"IteU32", ite)
	reg(vpkg+"EqBytes", func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) != len(y) {
			return tFalse
		}
		r := tTrue
		for i := range x {
			r = fr.m.tt.And(r, fr.m.tt.Eq(x[i].(*Term), y[i].(*Term)))
		}
		return r
	})
	reg(vpkg+"EqU64s", func(fr *frame, a []value) value {
		x, y := a[0].([]value), a[1].([]value)
		if len(x) != len(y) {
			return tFalse
		}
		r := tTrue
		for i := range x {
			r = fr.m.tt.And(r, fr.m.tt.Eq(x[i].(*Term), y[i].(*Term)))
		}
		return r
	})
	reg(vpkg+"Concrete", func(fr *frame, a []value) value { // Concrete(x int) int: forks over all values
		t := a[0].(*Term)
		return BV(t.w, fr.m.concretize(t, "v.Concrete"))
	})
	reg(vpkg+"Bound", func(fr *frame, a []value) value {
		m := fr.m
		q, t := a[1].(*Term), a[2].(*Term)
		if m.x.tier == "thorough" {
			q = t
		}
		m.x.noteBound(concStr(a[0]), int64(q.val))
		return q
	})
	reg(vpkg+"Thorough", func(fr *frame, a []value) value { return Bool(fr.m.x.tier == "thorough") })
	reg(vpkg+"Native", func(fr *frame, a []value) value { return tFalse })
	reg(vpkg+"MaxAlloc", func(fr *frame, a []value) value { fr.m.maxAlloc = int(a[0].(*Term).val); return nil })
	reg(vpkg+"MaxSteps", func(fr *frame, a []value) value {
		fr.m.maxSteps = fr.m.steps + int(a[0].(*Term).val)
		return nil
	})
	reg(vpkg+"Preemptions", func(fr *frame, a []value) value {
		fr.m.maxPre = int(int64(a[0].(*Term).val))
		fr.m.x.noteBound("preemptions", int64(fr.m.maxPre))
		return nil
	})
	reg(vpkg+"MapOrder", func(fr *frame, a []value) value { fr.m.mapPerm = int(a[0].(*Term).val); return nil })
	reg(vpkg+"RaceDetect", func(fr *frame, a []value) value {
		m := fr.m
		if m.race == nil {
			m.race, m.raceMap = map[*value]*raceCell{}, map[*smap]*raceCell{}
			for _, g := range m.gs {
				m.tick(g)
			}
		}
		return nil
	})
	reg(vpkg+"Option", func(fr *frame, a []value) value {
		fr.m.opts[concStr(a[0])] = int(int64(a[1].(*Term).val))
		if concStr(a[0]) == "oneschedule" {
			fr.m.x.noteBound("schedules of the large harness", 3)
		}
		return nil
	})
	reg(vpkg+"Yield", func(fr *frame, a []value) value { fr.m.schedPoint("v.Yield"); return nil })
	reg(vpkg+"Settle", func(fr *frame, a []value) value {
		m := fr.m
		g := m.cur
		m.block("settle", func() bool { return len(m.enabledOthers(g)) == 0 })
		// everything that happened so far is visible to the observer
		if m.race != nil {
			for _, o := range m.gs {
				if o != g {
					g.vc = joinVC(g.vc, o.vc)
				}
			}
		}
		return BV(64, uint64(m.alive()))
	})
	reg(vpkg+"Abandon", func(fr *frame, a []value) value {
		m := fr.m
		for _, g := range m.gs {
			if g != m.cur && !g.done {
				g.ready, g.daemon, g.why = func() bool { return false }, true, "its process has ended"
				if m.race != nil {
					m.cur.vc = joinVC(m.cur.vc, g.vc)
				}
			}
		}
		m.sigChans, m.timers = nil, nil
		return nil
	})
	reg(vpkg+"Alive", func(fr *frame, a []value) value { return BV(64, uint64(fr.m.alive())) })
	reg(vpkg+"FireTimers", func(fr *frame, a []value) value {
		m := fr.m
		for _, t := range m.activeTimers() {
			m.fireTimer(t)
		}
		return nil
	})
	reg(vpkg+"DeliverSignal", func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint("signal")
		sig := a[0].(*Term)
		if !sig.isConst() {
			m.unsupported("an unknown signal")
		}
		caught := false
		for _, c := range m.sigChans {
			if c.sigs != nil && !c.sigs[sig.val] {
				continue
			}
			caught = true
			if m.canSend(c.ch) && !c.ch.closed {
				m.doSend(c.ch, iface{m.prog.namedType("syscall", "Signal", false), BV(64, sig.val)})
			}
		}
		return Bool(caught)
	})
	reg(vpkg+"StructTag", func(fr *frame, a []value) value {
		i := a[0].(iface)
		t := i.t
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st := t.Underlying().(*types.Struct)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == concStr(a[1]) {
				return reflect.StructTag(st.Tag(k)).Get(concStr(a[2]))
			}
		}
		return ""
	})
	reg(vpkg+"Unsupported", func(fr *frame, a []value) value {
		fr.m.unsupported("%s", concStr(a[0]))
		return nil
	})
	reg(vpkg+"Fields", func(fr *frame, a []value) value {
		i := a[0].(iface)
		t, x := i.t, i.v
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t, x = p.Elem(), *x.(*value)
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return []value(nil)
		}
		var out []value
		for k := 0; k < st.NumFields(); k++ {
			f, y := st.Field(k), x.(structure)[k]
			_, isStruct := f.Type().Underlying().(*types.Struct)
			if p, ok := f.Type().Underlying().(*types.Pointer); ok {
				_, isStruct = p.Elem().Underlying().(*types.Struct)
				isStruct = isStruct && y.(*value) != nil
			}
			hidden := !f.Exported() && !f.Embedded()
			out = append(out, structure{f.Name(), st.Tag(k), fr.m.asIface(f.Type(), y), Bool(hidden), Bool(isStruct)})
		}
		return out
	})
	reg(vpkg+"TypeName", func(fr *frame, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return "nil"
		}
		return types.TypeString(i.t, func(p *types.Package) string { return p.Name() })
	})
	reg(vpkg+"TempDir", func(fr *frame, a []value) value { return "/model" })
	reg(vpkg+"Log", func(fr *frame, a []value) value { return nil })
	reg(vpkg+"Main "+vpkg+"Done", nop)
}

func (m *Machine) alive() int {
	n := 0
	for _, g := range m.gs {
		if !g.done && g != m.cur && !g.daemon {
			n++
		}
	}
	return n
}
