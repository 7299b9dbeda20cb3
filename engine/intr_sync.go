package main

import (
	"fmt"
	"go/types"
	"strings"
)

type mutexS struct {
	locked  bool
	readers int
	wwait   int
	vc      []uint32
	rvc     []uint32
	owner   int
}

type wgS struct {
	n  int64
	vc []uint32
}

type condS struct {
	waiters []*bool
	vc      []uint32
}

type atomS struct{ vc []uint32 }

type cellS struct {
	v   value
	set bool
	vc  []uint32
}

func sideOf[T any](m *Machine, p value) *T {
	a, ok := p.(*value)
	if !ok || a == nil {
		m.nilDeref()
	}
	if s, ok := m.side[a]; ok {
		if t, ok := s.(*T); ok {
			return t
		}
	}
	t := new(T)
	m.side[a] = t
	return t
}

func (m *Machine) fatal(msg string) {
	m.violKind = "panic"
	m.violation = "fatal error: " + msg + " at " + m.where()
	m.stop("violation", "%s", m.violation)
}

func (m *Machine) lock(p value) {
	mu := sideOf[mutexS](m, p)
	m.schedPoint("Lock")
	mu.wwait++
	m.block("mutex lock", func() bool { return !mu.locked && mu.readers == 0 })
	mu.wwait--
	mu.locked = true
	mu.owner = m.cur.id
	m.acquire(mu.vc)
	m.acquire(mu.rvc)
}

func (m *Machine) unlock(p value, what string) {
	mu := sideOf[mutexS](m, p)
	m.schedPoint("Unlock")
	if !mu.locked {
		m.fatal("sync: unlock of unlocked " + what)
	}
	mu.locked = false
	mu.vc = joinVC(mu.vc, m.snap())
}

func init() {
	reg("(*sync.Mutex).Lock (*internal/sync.Mutex).Lock (*sync.RWMutex).Lock", func(fr *frame, a []value) value {
		fr.m.lock(a[0])
		return nil
	})
	reg("(*sync.Mutex).Unlock (*internal/sync.Mutex).Unlock", func(fr *frame, a []value) value {
		fr.m.unlock(a[0], "mutex")
		return nil
	})
	reg("(*sync.RWMutex).Unlock", func(fr *frame, a []value) value {
		fr.m.unlock(a[0], "RWMutex")
		return nil
	})
	reg("(*sync.Mutex).TryLock (*internal/sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(fr *frame, a []value) value {
		m := fr.m
		mu := sideOf[mutexS](m, a[0])
		m.schedPoint("TryLock")
		if mu.locked || mu.readers > 0 {
			return tFalse
		}
		mu.locked = true
		m.acquire(mu.vc)
		m.acquire(mu.rvc)
		return tTrue
	})
	reg("(*sync.RWMutex).RLock", func(fr *frame, a []value) value {
		m := fr.m
		mu := sideOf[mutexS](m, a[0])
		m.schedPoint("RLock")
		m.block("rwmutex rlock", func() bool { return !mu.locked && mu.wwait == 0 })
		mu.readers++
		m.acquire(mu.vc)
		return nil
	})
	reg("(*sync.RWMutex).TryRLock", func(fr *frame, a []value) value {
		m := fr.m
		mu := sideOf[mutexS](m, a[0])
		m.schedPoint("TryRLock")
		if mu.locked || mu.wwait > 0 {
			return tFalse
		}
		mu.readers++
		m.acquire(mu.vc)
		return tTrue
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *frame, a []value) value {
		m := fr.m
		mu := sideOf[mutexS](m, a[0])
		m.schedPoint("RUnlock")
		if mu.readers == 0 {
			m.fatal("sync: RUnlock of unlocked RWMutex")
		}
		mu.readers--
		mu.rvc = joinVC(mu.rvc, m.snap())
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(fr *frame, a []value) value {
		m := fr.m
		w := sideOf[wgS](m, a[0])
		d := int64(m.concretize(a[1].(*Term), "wg delta"))
		m.schedPoint("wg.Add")
		w.n += d
		if d < 0 {
			w.vc = joinVC(w.vc, m.snap())
		}
		if w.n < 0 {
			m.goPanic(iface{types.Typ[types.String], "sync: negative WaitGroup counter"})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *frame, a []value) value {
		m := fr.m
		w := sideOf[wgS](m, a[0])
		m.schedPoint("wg.Done")
		w.n--
		w.vc = joinVC(w.vc, m.snap())
		if w.n < 0 {
			m.goPanic(iface{types.Typ[types.String], "sync: negative WaitGroup counter"})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *frame, a []value) value {
		m := fr.m
		w := sideOf[wgS](m, a[0])
		m.schedPoint("wg.Wait")
		m.block("WaitGroup.Wait", func() bool { return w.n == 0 })
		m.acquire(w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *frame, a []value) value {
		m := fr.m
		w := sideOf[wgS](m, a[0])
		w.n++
		f := a[1]
		m.spawn(&nativeFn{name: "wg.Go", f: func(m *Machine, _ []value) value {
			m.callValue(nil, f, nil)
			w.n--
			w.vc = joinVC(w.vc, m.snap())
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Cond).Wait", func(fr *frame, a []value) value {
		m := fr.m
		c := sideOf[condS](m, a[0])
		p := m.ptr(a[0])
		l := (*p).(structure)[1].(iface)
		woken := false
		c.waiters = append(c.waiters, &woken)
		m.callMethod(fr, l, "Unlock")
		m.block("Cond.Wait", func() bool { return woken })
		m.acquire(c.vc)
		m.callMethod(fr, l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *frame, a []value) value {
		m := fr.m
		c := sideOf[condS](m, a[0])
		m.schedPoint("Cond.Signal")
		c.vc = joinVC(c.vc, m.snap())
		if len(c.waiters) > 0 {
			*c.waiters[0] = true
			c.waiters = c.waiters[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *frame, a []value) value {
		m := fr.m
		c := sideOf[condS](m, a[0])
		m.schedPoint("Cond.Broadcast")
		c.vc = joinVC(c.vc, m.snap())
		for _, w := range c.waiters {
			*w = true
		}
		c.waiters = nil
		return nil
	})
	reg("sync.NewCond", func(fr *frame, a []value) value {
		p := new(value)
		*p = structure{structure{}, a[0], zeroNotify, BV(64, 0)}
		return p
	})
	// A pool hands out what was put last (as the runtime does within a thread), so that
	// state left over in reused objects is seen.
	type poolItem struct {
		val value
		vc  []uint32
	}
	type poolS struct{ items []poolItem }
	reg("(*sync.Pool).Get", func(fr *frame, a []value) value {
		m := fr.m
		p := m.ptr(a[0])
		s := sideOf[poolS](m, a[0])
		if n := len(s.items); n > 0 {
			it := s.items[n-1]
			s.items = s.items[:n-1]
			m.acquire(it.vc)
			return it.val
		}
		st := (*p).(structure)
		f := st[len(st)-1]
		if isNilFunc(f) {
			return iface{}
		}
		return m.callValue(fr, f, nil)
	})
	reg("(*sync.Pool).Put", func(fr *frame, a []value) value {
		m := fr.m
		if i, ok := a[1].(iface); ok && i.t == nil {
			return nil
		}
		s := sideOf[poolS](m, a[0])
		s.items = append(s.items, poolItem{a[1], m.snap()})
		return nil
	})

	// sync.Map
	smapOf := func(m *Machine, p value) *struct {
		mp *smap
		vc []uint32
	} {
		s := sideOf[struct {
			mp *smap
			vc []uint32
		}](m, p)
		if s.mp == nil {
			s.mp = newMap(types.NewInterfaceType(nil, nil))
		}
		m.schedPoint("sync.Map")
		m.acquire(s.vc)
		s.vc = joinVC(s.vc, m.snap())
		return s
	}
	reg("(*sync.Map).Load", func(fr *frame, a []value) value {
		s := smapOf(fr.m, a[0])
		if e := fr.m.mapFind(s.mp, a[1]); e != nil {
			return tuple{e.val, tTrue}
		}
		return tuple{iface{}, tFalse}
	})
	reg("(*sync.Map).Store", func(fr *frame, a []value) value {
		s := smapOf(fr.m, a[0])
		fr.m.mapSet(s.mp, a[1], a[2])
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(fr *frame, a []value) value {
		s := smapOf(fr.m, a[0])
		if e := fr.m.mapFind(s.mp, a[1]); e != nil {
			return tuple{e.val, tTrue}
		}
		fr.m.mapSet(s.mp, a[1], a[2])
		return tuple{a[2], tFalse}
	})
	reg("(*sync.Map).Delete", func(fr *frame, a []value) value {
		s := smapOf(fr.m, a[0])
		fr.m.mapDelete(s.mp, a[1])
		return nil
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *frame, a []value) value {
		s := smapOf(fr.m, a[0])
		if e := fr.m.mapFind(s.mp, a[1]); e != nil {
			v := e.val
			fr.m.mapDelete(s.mp, a[1])
			return tuple{v, tTrue}
		}
		return tuple{iface{}, tFalse}
	})
	reg("(*sync.Map).Range", func(fr *frame, a []value) value {
		s := smapOf(fr.m, a[0])
		for _, e := range append([]*mapEntry{}, s.mp.entries...) {
			if e.dead {
				continue
			}
			if !fr.m.branch(fr.m.callValue(fr, a[1], []value{e.key, e.val}).(*Term)) {
				break
			}
		}
		return nil
	})

	// atomics
	at := func(m *Machine, p value) (*value, *atomS) {
		s := sideOf[atomS](m, p)
		m.schedPoint("atomic")
		m.acquire(s.vc)
		s.vc = joinVC(s.vc, m.snap())
		return p.(*value), s
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+ty, func(fr *frame, a []value) value {
			p, _ := at(fr.m, a[0])
			return *p
		})
		reg("sync/atomic.Store"+ty, func(fr *frame, a []value) value {
			p, _ := at(fr.m, a[0])
			*p = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+ty, func(fr *frame, a []value) value {
			p, _ := at(fr.m, a[0])
			o := *p
			*p = a[1]
			return o
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(fr *frame, a []value) value {
			p, _ := at(fr.m, a[0])
			var eq bool
			if x, ok := (*p).(*Term); ok {
				eq = fr.m.branch(fr.m.tt.Eq(x, a[1].(*Term)))
			} else {
				eq = fmt.Sprint(*p) == fmt.Sprint(a[1])
			}
			if eq {
				*p = a[2]
			}
			return Bool(eq)
		})
		if ty != "Pointer" {
			reg("sync/atomic.Add"+ty, func(fr *frame, a []value) value {
				p, _ := at(fr.m, a[0])
				*p = fr.m.tt.bin(OAdd, (*p).(*Term), a[1].(*Term))
				return *p
			})
			reg("sync/atomic.And"+ty, func(fr *frame, a []value) value {
				p, _ := at(fr.m, a[0])
				o := *p
				*p = fr.m.tt.bin(OBAnd, (*p).(*Term), a[1].(*Term))
				return o
			})
			reg("sync/atomic.Or"+ty, func(fr *frame, a []value) value {
				p, _ := at(fr.m, a[0])
				o := *p
				*p = fr.m.tt.bin(OBOr, (*p).(*Term), a[1].(*Term))
				return o
			})
		}
	}
	cell := func(m *Machine, p value) *cellS {
		s := sideOf[cellS](m, p)
		m.schedPoint("atomic")
		m.acquire(s.vc)
		s.vc = joinVC(s.vc, m.snap())
		return s
	}
	reg("(*sync/atomic.Value).Load", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		if !c.set {
			return iface{}
		}
		return c.v
	})
	reg("(*sync/atomic.Value).Store", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		if a[1].(iface).t == nil {
			fr.m.goPanic(iface{types.Typ[types.String], "sync/atomic: store of nil value into Value"})
		}
		c.v, c.set = a[1], true
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		var o value = iface{}
		if c.set {
			o = c.v
		}
		c.v, c.set = a[1], true
		return o
	})
	reg("(*sync/atomic.Pointer[T]).Load", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		if !c.set {
			return (*value)(nil)
		}
		return c.v
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		c.v, c.set = a[1], true
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).Swap", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		var o value = (*value)(nil)
		if c.set {
			o = c.v
		}
		c.v, c.set = a[1], true
		return o
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(fr *frame, a []value) value {
		c := cell(fr.m, a[0])
		var o value = (*value)(nil)
		if c.set {
			o = c.v
		}
		if o == a[1] {
			c.v, c.set = a[2], true
			return tTrue
		}
		return tFalse
	})

	// ---------- time ----------
	reg("time.Sleep", func(fr *frame, a []value) value {
		m := fr.m
		end := int64(m.nowTick)
		if d := a[0].(*Term); d.isConst() && int64(d.val) > 0 && int64(d.val) < 1<<62 {
			end += int64(d.val)
		}
		m.yield("Sleep")
		if end > int64(m.nowTick) {
			m.nowTick = uint64(end)
		}
		return nil
	})
	now := func(m *Machine) value {
		m.nowTick += 1000
		// no monotonic reading: wall holds the nanoseconds, ext the seconds since year 1
		return structure{BV(64, m.nowTick%1e9), BV(64, 63_900_000_000+m.nowTick/1e9), (*value)(nil)}
	}
	reg("time.Now", func(fr *frame, a []value) value { return now(fr.m) })
	reg("time.runtimeNano", func(fr *frame, a []value) value { fr.m.nowTick += 1000; return BV(64, fr.m.nowTick) })
	// arm sets the moment at which a timer fires next: a symbolic delay may
	// end at any time.
	arm := func(m *Machine, t *timerV, d value) {
		t.active = true
		t.when, t.anytime = 0, false
		if dt, ok := d.(*Term); ok && dt.isConst() {
			t.when = m.nowTick
			if n := int64(dt.val); n > 0 && n < 1<<62 {
				t.when += uint64(n)
			}
		} else {
			t.anytime = true
		}
	}
	reg("time.AfterFunc", func(fr *frame, a []value) value {
		m := fr.m
		f := a[1]
		t := &timerV{}
		t.fire = func() {
			g := m.newGor("timer")
			m.startHost(g, func() { m.callValue(nil, f, nil) })
		}
		arm(m, t, a[0])
		m.timers = append(m.timers, t)
		p := new(value)
		*p = structure{(*chanV)(nil), tTrue}
		m.side[p] = t
		return p
	})
	newTimer := func(m *Machine, d value, repeat bool) value {
		t := &timerV{}
		ch := &chanV{cap: 1, label: "timer"}
		t.period = d
		n := 0
		t.fire = func() {
			if len(ch.buf) < 1 || hasWaiter(ch.recvq) {
				m.doSend(ch, now(m))
			}
			n++
			if repeat && n < 4 {
				arm(m, t, t.period)
			}
		}
		arm(m, t, d)
		m.timers = append(m.timers, t)
		p := new(value)
		*p = structure{ch, tTrue}
		m.side[p] = t
		return p
	}
	reg("time.NewTimer", func(fr *frame, a []value) value { return newTimer(fr.m, a[0], false) })
	reg("time.NewTicker", func(fr *frame, a []value) value {
		fr.m.schedPoint("time.NewTicker")
		d := a[0].(*Term)
		if fr.m.branch(fr.m.tt.Sle(d, BV(64, 0))) {
			fr.m.goPanic(iface{types.Typ[types.String], "non-positive interval for NewTicker"})

		}
		return newTimer(fr.m, d, true)
	})
	reg("time.After", func(fr *frame, a []value) value {
		p := newTimer(fr.m, a[0], false).(*value)
		return (*p).(structure)[0]
	})
	reg("time.Tick", func(fr *frame, a []value) value {
		p := newTimer(fr.m, a[0], true).(*value)
		return (*p).(structure)[0]
	})
	// The module's Go version keeps the old semantics: a value sent before
	// Stop or Reset stays in the channel.
	reg("(*time.Timer).Stop (*time.Ticker).Stop", func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint("timer.Stop")
		t, _ := m.side[m.ptr(a[0])].(*timerV)
		if t == nil {
			return tFalse
		}
		was := t.active
		t.active = false
		return Bool(was)
	})
	reg("(*time.Timer).Reset (*time.Ticker).Reset", func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint("timer.Reset")
		t, _ := m.side[m.ptr(a[0])].(*timerV)
		if t == nil {
			return tFalse
		}
		was := t.active
		t.period = a[1]
		arm(m, t, a[1])
		return Bool(was)
	})
	// ---------- signals ----------
	reg("os/signal.Notify", func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint("signal.Notify")
		r := &sigReg{ch: a[0].(*chanV)}
		if l := a[1].([]value); len(l) > 0 {
			r.sigs = map[uint64]bool{}
			for _, s := range l {
				t, ok := s.(iface).v.(*Term)
				if !ok || !t.isConst() {
					m.unsupported("signal.Notify of an unknown signal")
				}
				r.sigs[t.val] = true
			}
		}
		m.sigChans = append(m.sigChans, r)
		return nil
	})
	reg("os/signal.Stop", func(fr *frame, a []value) value {
		m := fr.m
		m.schedPoint("signal.Stop")
		var out []*sigReg
		for _, c := range m.sigChans {
			if c.ch != a[0].(*chanV) {
				out = append(out, c)
			}
		}
		m.sigChans = out
		return nil
	})
}

// sigReg is a channel registered for signals.
type sigReg struct {
	ch   *chanV
	sigs map[uint64]bool // nil: all of them
}

var zeroNotify = structure{}

func init() {
	_ = strings.Fields
}
