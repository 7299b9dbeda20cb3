package main

// Goroutines, channels, timers, and the happens-before race detector.
// Only one target goroutine runs at a time; control moves at scheduling points.

import (
	"fmt"
	"go/types"
	"strings"
)

type gor struct {
	id     int
	wake   chan struct{}
	ready  func() bool // nil: runnable
	done   bool
	top    *frame
	vc     []uint32
	why    string
	name   string
	daemon bool
}

type chanV struct {
	cap            int
	buf            []chanMsg
	closed         bool
	sendq          []*waiter
	recvq          []*waiter
	closeVC        []uint32
	recvVCs        [][]uint32
	nsent, nrecv   int
	id             int
	label          string
	totalSendDelta int
}

type chanMsg struct {
	v  value
	vc []uint32
}

type waiter struct {
	g      *gor
	ch     *chanV
	send   bool
	v      value
	ok     bool
	fired  *bool
	idx    int
	won    *int
	closed bool
	vc     []uint32
}

type selCase struct {
	send bool
	ch   *chanV
	v    value
	et   types.Type
}

// ---------- vector clocks ----------

func (m *Machine) tick(g *gor) {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func joinVC(a, b []uint32) []uint32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

func (m *Machine) snap() []uint32 {
	if m.race == nil {
		return nil
	}
	c := append([]uint32{}, m.cur.vc...)
	m.tick(m.cur)
	return c
}

func (m *Machine) acquire(vc []uint32) {
	if m.race != nil && vc != nil {
		m.cur.vc = joinVC(m.cur.vc, vc)
	}
}

type raceCell struct {
	wg    int
	wc    uint32
	ww    string
	reads map[int]uint32
	rw    map[int]string
}

func (m *Machine) raceActive() bool { return m.race != nil && m.inInit == 0 && len(m.gs) > 1 }

func (m *Machine) raceVal(p *value, write bool) {
	if !m.raceActive() {
		return
	}
	switch x := (*p).(type) {
	case structure:
		for i := range x {
			m.raceVal(&x[i], write)
		}
	case array:
		for i := range x {
			m.raceVal(&x[i], write)
		}
	default:
		m.raceAccess(p, write)
	}
}

func (m *Machine) raceAccess(p *value, write bool) {
	if !m.raceActive() {
		return
	}
	c := m.race[p]
	if c == nil {
		c = &raceCell{wg: -1}
		m.race[p] = c
	}
	m.raceCheck(c, write)
}

func (m *Machine) mapRace(mp *smap, write bool) {
	if !m.raceActive() || mp == nil {
		return
	}
	c := m.raceMap[mp]
	if c == nil {
		c = &raceCell{wg: -1}
		m.raceMap[mp] = c
	}
	m.raceCheck(c, write)
}

func (m *Machine) raceCheck(c *raceCell, write bool) {
	g := m.cur
	at := func(i int) uint32 {
		if i < len(g.vc) {
			return g.vc[i]
		}
		return 0
	}
	// accesses made by the harness itself are synchronised by construction only if HB-ordered: report all
	if c.wg >= 0 && c.wg != g.id && at(c.wg) < c.wc {
		m.violate("race", fmt.Sprintf("data race: %s unordered with write at %s", m.where(), c.ww), m.model)
	}
	if write {
		for r, rc := range c.reads {
			if r != g.id && at(r) < rc {
				m.violate("race", fmt.Sprintf("data race: write at %s unordered with read at %s", m.where(), c.rw[r]), m.model)
			}
		}
		c.wg, c.wc, c.ww = g.id, at(g.id), m.shortWhere()
		c.reads, c.rw = nil, nil
		return
	}
	if c.reads == nil {
		c.reads, c.rw = map[int]uint32{}, map[int]string{}
	}
	c.reads[g.id] = at(g.id)
	c.rw[g.id] = m.shortWhere()
}

func (m *Machine) shortWhere() string {
	if m.cur == nil || m.cur.top == nil {
		return "?"
	}
	return m.cur.top.fi.name + "(" + m.cur.top.curPos() + ")"
}

// ---------- goroutines ----------

func (m *Machine) newGor(name string) *gor {
	g := &gor{id: len(m.gs), wake: make(chan struct{}), name: name}
	m.gs = append(m.gs, g)
	if m.race != nil {
		m.tick(g)
	}
	return g
}

func (m *Machine) spawn(fn value, args []value) {
	if len(m.gs) > 64 && (m.opts["oneschedule"] == 0 || len(m.gs) > 2000) {
		m.stop("bound", "more than 64 goroutines")
	}
	name := "go"
	switch f := fn.(type) {
	case *closure:
		name = f.fn.String()
	case fmt.Stringer:
		name = f.String()
	}
	g := m.newGor(name)
	if m.race != nil {
		g.vc = joinVC(g.vc, m.cur.vc)
		m.tick(m.cur)
		m.tick(g)
	}
	m.startHost(g, func() { m.callValue(nil, fn, args) })
	m.schedPoint("go")
}

// startHost creates the host goroutine; it waits for its first baton.
func (m *Machine) startHost(g *gor, body func()) {
	m.w.hosts.Add(1)
	go func() {
		defer m.w.hosts.Done()
		<-g.wake
		var st *pathStop
		func() {
			defer func() {
				if r := recover(); r != nil {
					st = m.stopFrom(r)
				}
			}()
			if m.stopped != nil {
				return
			}
			body()
		}()
		g.done = true
		if m.stopped != nil {
			m.killNext()
			return
		}
		if st != nil {
			m.finish(st)
			return
		}
		if g.id == 0 {
			m.finish(&pathStop{"done", ""})
			return
		}
		// hand over the baton
		st = nil
		func() {
			defer func() {
				if r := recover(); r != nil {
					st = m.stopFrom(r)
				}
			}()
			n := m.pickNext(g, "goroutine end")
			m.cur = n
			n.wake <- struct{}{}
		}()
		if st != nil {
			m.finish(st)
		}
	}()
}

func (m *Machine) stopFrom(r any) *pathStop {
	switch r := r.(type) {
	case *pathStop:
		return r
	case *targetPanic:
		m.violKind = "panic"
		m.violation = "panic: " + m.panicText(r.v) + " at " + r.stack
		return &pathStop{"violation", m.violation}
	case *engineError:
		return &pathStop{"engine", r.msg + " at " + m.where()}
	}
	return &pathStop{"engine", fmt.Sprintf("%v at %s\n%s", r, m.where(), hostStack())}
}

// finish ends the path: every other host goroutine is unwound one after another.
func (m *Machine) finish(st *pathStop) {
	m.stopped = st
	m.killNext()
}

func (m *Machine) killNext() {
	for _, g := range m.gs {
		if !g.done {
			g.done = true
			g.wake <- struct{}{}
			return
		}
	}
	m.mainDone <- m.stopped
}

func (m *Machine) enabledOthers(self *gor) []*gor {
	var out []*gor
	for _, g := range m.gs {
		if g != self && !g.done && (g.ready == nil || g.ready()) {
			out = append(out, g)
		}
	}
	return out
}

func (m *Machine) switchTo(g *gor) {
	self := m.cur
	if g == self {
		return
	}
	m.cur = g
	g.wake <- struct{}{}
	<-self.wake
	if m.stopped != nil {
		panic(&pathStop{"killed", ""})
	}
}

// activeTimers lists the timers that can fire next: those that end first, and
// those whose delay is unknown.
func (m *Machine) activeTimers() []*timerV {
	first := ^uint64(0)
	for _, t := range m.timers {
		if t.active && !t.anytime && t.when < first {
			first = t.when
		}
	}
	var out []*timerV
	for _, t := range m.timers {
		if t.active && (t.anytime || t.when == first) {
			out = append(out, t)
		}
	}
	return out
}

func (m *Machine) fireTimer(t *timerV) {
	t.active = false
	if t.when > m.nowTick {
		m.nowTick = t.when
	}
	t.fire()
}

// schedPoint lets another goroutine run before the current operation.
func (m *Machine) schedPoint(why string) {
	if m.inInit > 0 || m.stopped != nil {
		return
	}
	if len(m.gs) == 1 && len(m.timers) == 0 {
		return
	}
	for {
		if m.preempts >= m.maxPre {
			return
		}
		others := m.enabledOthers(m.cur)
		ts := m.activeTimers()
		if m.opts["latetimers"] != 0 {
			ts = nil
		}
		n := 1 + len(others) + len(ts)
		if n == 1 {
			return
		}
		k := m.choose(n, "sched:"+why)
		if k == 0 {
			return
		}
		m.preempts++
		if k <= len(others) {
			m.logSwitch(others[k-1], why)
			m.switchTo(others[k-1])
			return
		}
		t := ts[k-1-len(others)]
		m.fireTimer(t)
	}
}

func (m *Machine) logSwitch(g *gor, why string) {
	if len(m.schedLog) < 200 {
		m.schedLog = append(m.schedLog, fmt.Sprintf("%d->%d before %s", m.cur.id, g.id, why))
	}
}

// fixedPick replaces the choice of the next goroutine for harnesses with too
// many goroutines to interleave: the oldest, the youngest, or each in turn.
func fixedPick(self *gor, others []*gor, how int) int {
	switch how {
	case 1:
		return 0
	case 2:
		return len(others) - 1
	}
	for i, g := range others {
		if g.id > self.id {
			return i
		}
	}
	return 0
}

// pickNext chooses the goroutine to run when self cannot continue.
func (m *Machine) pickNext(self *gor, why string) *gor {
	for {
		others := m.enabledOthers(self)
		ts := m.activeTimers()
		selfOK := !self.done && self.ready != nil && self.ready()
		if selfOK {
			return self
		}
		if m.opts["latetimers"] != 0 && len(others) > 0 {
			ts = nil
		}
		n := len(others) + len(ts)
		if n == 0 {
			m.deadlock()
		}
		var k int
		if how := m.opts["oneschedule"]; how != 0 && len(others) > 0 {
			k = fixedPick(self, others, how)
		} else {
			k = m.choose(n, "sched:"+why)
		}
		if k < len(others) {
			m.logSwitch(others[k], why)
			return others[k]
		}
		t := ts[k-len(others)]
		m.fireTimer(t)
	}
}

func (m *Machine) deadlock() {
	var sb strings.Builder
	for _, g := range m.gs {
		if !g.done {
			pos := ""
			for fr := g.top; fr != nil; fr = fr.caller {
				pos += fr.fi.name + "(" + fr.curPos() + ") < "
				if len(pos) > 300 {
					break
				}
			}
			fmt.Fprintf(&sb, " [g%d blocked: %s in %s]", g.id, g.why, pos)
		}
	}
	m.violKind = "hang"
	m.violation = "all goroutines are blocked:" + sb.String()
	m.stop("violation", "%s", m.violation)
}

// block suspends the current goroutine until ready holds.
func (m *Machine) block(why string, ready func() bool) {
	g := m.cur
	if ready() {
		return
	}
	g.ready, g.why = ready, why
	n := m.pickNext(g, why)
	if n != g {
		m.switchTo(n)
	}
	g.ready = nil
}

// yield: a sleeping goroutine; others go first by default.
func (m *Machine) yield(why string) {
	if m.inInit > 0 {
		return
	}
	others := m.enabledOthers(m.cur)
	ts := m.activeTimers()
	if m.opts["latetimers"] != 0 && len(others) > 0 {
		ts = nil
	}
	n := len(others) + len(ts)
	if n == 0 {
		return
	}
	extra := 0
	if m.preempts < m.maxPre {
		extra = 1
	}
	var k int
	if how := m.opts["oneschedule"]; how != 0 && len(others) > 0 {
		k = fixedPick(m.cur, others, how)
	} else {
		k = m.choose(n+extra, "yield:"+why)
	}
	if k == n {
		m.preempts++
		return
	}
	if k < len(others) {
		g := m.cur
		g.why = why
		m.logSwitch(others[k], why)
		m.switchTo(others[k])
		return
	}
	m.fireTimer(ts[k-len(others)])
}

// ---------- channels ----------

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.fired {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if !*w.fired {
			return true
		}
	}
	return false
}

func (m *Machine) canSend(ch *chanV) bool {
	return ch != nil && (ch.closed || hasWaiter(ch.recvq) || len(ch.buf) < ch.cap)
}

func (m *Machine) canRecv(ch *chanV) bool {
	return ch != nil && (ch.closed || hasWaiter(ch.sendq) || len(ch.buf) > 0)
}

func (m *Machine) doSend(ch *chanV, v value) {
	if ch.closed {
		m.goPanic(iface{m.prog.plainErrT, "send on closed channel"})
	}
	if w := popWaiter(&ch.recvq); w != nil {
		*w.fired = true
		*w.won = w.idx
		w.v, w.ok = v, true
		w.vc = m.snap()
		if m.race != nil {
			// rendezvous: the receiver's clock at blocking time reaches the sender for unbuffered channels
			if ch.cap == 0 {
				m.acquire(w.g.vc)
			}
		}
		return
	}
	if m.race != nil && ch.cap > 0 {
		if i := ch.nsent - ch.cap; i >= 0 && i < len(ch.recvVCs) {
			m.acquire(ch.recvVCs[i])
		}
	}
	ch.nsent++
	ch.buf = append(ch.buf, chanMsg{v, m.snap()})
}

func (m *Machine) doRecv(ch *chanV, et types.Type) (value, bool) {
	if len(ch.buf) > 0 {
		msg := ch.buf[0]
		ch.buf = append([]chanMsg{}, ch.buf[1:]...)
		m.acquire(msg.vc)
		if m.race != nil {
			ch.recvVCs = append(ch.recvVCs, m.snap())
		}
		if w := popWaiter(&ch.sendq); w != nil {
			*w.fired = true
			*w.won = w.idx
			ch.nsent++
			ch.buf = append(ch.buf, chanMsg{w.v, w.vc})
		}
		return msg.v, true
	}
	if w := popWaiter(&ch.sendq); w != nil {
		*w.fired = true
		*w.won = w.idx
		m.acquire(w.vc)
		if m.race != nil {
			w.g.vc = joinVC(w.g.vc, m.snap())
		}
		return w.v, true
	}
	m.acquire(ch.closeVC)
	return zero(et), false
}

func (m *Machine) chanSend(ch *chanV, v value) {
	m.schedPoint("send")
	if ch == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	if m.canSend(ch) {
		m.doSend(ch, v)
		return
	}
	fired, won := false, 0
	w := &waiter{g: m.cur, ch: ch, send: true, v: v, fired: &fired, won: &won, vc: m.snap()}
	ch.sendq = append(ch.sendq, w)
	m.block("channel send", func() bool { return fired })
	if w.closed {
		m.goPanic(iface{m.prog.plainErrT, "send on closed channel"})
	}
}

func (m *Machine) chanRecv(ch *chanV, et types.Type) (value, bool) {
	m.schedPoint("recv")
	if ch == nil {
		m.block("receive from nil channel", func() bool { return false })
	}
	if m.canRecv(ch) {
		return m.doRecv(ch, et)
	}
	fired, won := false, 0
	w := &waiter{g: m.cur, ch: ch, fired: &fired, won: &won}
	ch.recvq = append(ch.recvq, w)
	m.block("channel receive", func() bool { return fired })
	m.acquire(w.vc)
	if !w.ok {
		return zero(et), false
	}
	return w.v, true
}

func (m *Machine) chanClose(ch *chanV) {
	m.schedPoint("close")
	if ch == nil {
		m.goPanic(iface{m.prog.plainErrT, "close of nil channel"})
	}
	if ch.closed {
		m.goPanic(iface{m.prog.plainErrT, "close of closed channel"})
	}
	ch.closed = true
	ch.closeVC = m.snap()
	for w := popWaiter(&ch.recvq); w != nil; w = popWaiter(&ch.recvq) {
		*w.fired = true
		*w.won = w.idx
		w.ok = false
		w.vc = ch.closeVC
	}
	for w := popWaiter(&ch.sendq); w != nil; w = popWaiter(&ch.sendq) {
		*w.fired = true
		*w.won = w.idx
		w.closed = true
	}
}

func (m *Machine) selectOp(cs []selCase, blocking bool) (int, value, bool) {
	m.schedPoint("select")
	var ready []int
	for i, c := range cs {
		if c.send && m.canSend(c.ch) || !c.send && m.canRecv(c.ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		var i int
		switch m.opts["oneschedule"] {
		case 0:
			i = ready[m.choose(len(ready), "select")]
		case 1:
			i = ready[0]
		case 2:
			i = ready[len(ready)-1]
		default:
			m.turn++
			i = ready[m.turn%len(ready)]
		}
		c := cs[i]
		if c.send {
			m.doSend(c.ch, c.v)
			return i, nil, false
		}
		v, ok := m.doRecv(c.ch, c.et)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	fired, won := false, -1
	ws := make([]*waiter, len(cs))
	vc := m.snap()
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		ws[i] = &waiter{g: m.cur, ch: c.ch, send: c.send, v: c.v, fired: &fired, won: &won, idx: i}
		if c.send {
			ws[i].vc = vc
			c.ch.sendq = append(c.ch.sendq, ws[i])
		} else {
			c.ch.recvq = append(c.ch.recvq, ws[i])
		}
	}
	m.block("select", func() bool { return fired })
	w := ws[won]
	if w.send {
		if w.closed {
			m.goPanic(iface{m.prog.plainErrT, "send on closed channel"})
		}
		return won, nil, false
	}
	m.acquire(w.vc)
	if !w.ok {
		return won, zero(cs[won].et), false
	}
	return won, w.v, true
}
