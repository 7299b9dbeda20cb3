package main

// Machine: one symbolic execution path of the program under test.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// pathStop ends the path (host panic, never seen by the target program).
type pathStop struct {
	kind string // done, infeasible, violation, unsupported, steps, deadlock, exit, killed, engine
	msg  string
}

// targetPanic is a Go panic of the target program.
type targetPanic struct {
	v     iface
	stack string
}

type decAlt struct {
	val   uint64
	model map[string]uint64 // nil: same model
}

type workItem struct {
	prefix []uint64
	model  map[string]uint64
}

type choiceRec struct {
	name string
	w    uint8
	term *Term // symbolic value
	val  uint64
	fix  bool
}

type obsRec struct {
	label string
	vals  []value
	types []types.Type
}

type Machine struct {
	x      *Explorer
	w      *Worker
	tt     *TermTable
	prog   *Program
	prefix []uint64
	pos    int
	decs   []uint64
	pc     []*Term
	known  map[*Term]bool
	model  Model
	ecache evalCache

	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]int
	initDone map[*ssa.Function]bool
	side     map[*value]any
	names    map[string]int
	choices  []choiceRec
	obs      []obsRec
	reached  map[string]bool
	asserted int
	steps    int
	depth    int
	maxSteps int
	funcs    map[*ssa.Function]bool

	// concurrency
	gs       []*gor
	cur      *gor
	preempts int
	turn     int // of the selects in a fixed schedule
	maxPre   int
	mainDone chan *pathStop
	stopped  *pathStop
	race     map[*value]*raceCell
	raceMap  map[*smap]*raceCell
	timers   []*timerV
	schedLog []string
	nowTick  uint64

	maxAlloc   int // 0: unlimited
	mapPerm    int
	opts       map[string]int
	violation  string
	violModel  map[string]uint64
	violKind   string
	heap       int
	lastPos    string
	reflTypes  map[string]iface
	inInit     int
	fnOverride map[string]*ssa.Function
	initMemo   map[ssa.Value]value
	envv       map[string]value
	sigChans   []*sigReg
	logs       []string
	nondet     bool
	jsonSyms   []iface
	jsonStrict bool
}

type timerV struct {
	active  bool
	anytime bool   // after an unknown delay
	when    uint64 // of the virtual clock
	period  value
	fire    func()
}

func (m *Machine) stop(kind, f string, a ...any) {
	panic(&pathStop{kind, fmt.Sprintf(f, a...)})
}

func (m *Machine) unsupported(f string, a ...any) {
	m.stop("unsupported", "%s at %s", fmt.Sprintf(f, a...), m.where())
}

func (m *Machine) where() string {
	if m.cur == nil {
		return "?"
	}
	var sb strings.Builder
	n := 0
	for fr := m.cur.top; fr != nil && n < 12; fr = fr.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(fr.fi.name)
		if p := fr.curPos(); p != "" {
			sb.WriteString("(" + p + ")")
		}
		n++
	}
	return sb.String()
}

// ---------- decisions ----------

func (m *Machine) evalBool(t *Term) bool { return t.eval(m.model, m.ecache) != 0 }

func (m *Machine) lit(c *Term, b bool) *Term {
	if b {
		return c
	}
	return m.tt.Not(c)
}

func (m *Machine) learn(c *Term) {
	m.known[c] = true
	m.known[m.tt.Not(c)] = false
}

func (m *Machine) addPC(c *Term) {
	if c.isConst() {
		return
	}
	m.pc = append(m.pc, c)
	m.learn(c)
}

// slice returns the constraints of pc connected with the variables of c.
func (m *Machine) slice(c *Term) []*Term {
	want := map[uint32]bool{}
	for _, v := range c.vars {
		want[v] = true
	}
	used := make([]bool, len(m.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range m.pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.vars {
				if want[v] {
					hit = true
					break
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			changed = true
			out = append(out, p)
			for _, v := range p.vars {
				want[v] = true
			}
		}
	}
	return out
}

// query decides pc ∧ c. The model covers all variables on Sat.
func (m *Machine) query(c *Term) (Result, Model) {
	if c.isConst() {
		if c.val == 0 {
			return Unsat, nil
		}
		return Sat, m.model
	}
	cs := append(m.slice(c), c)
	ids := make([]int, len(cs))
	for i, t := range cs {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%x,", i)
	}
	key := sb.String()
	if r, ok := m.w.qcache[key]; ok {
		m.w.stats.CacheHits++
		if r.res != Sat {
			return r.res, nil
		}
		return Sat, m.overlay(r.model)
	}
	res, mod := m.w.solver.Check(cs)
	if len(m.w.qcache) > 200000 {
		m.w.qcache = map[string]qres{}
	}
	m.w.qcache[key] = qres{res, mod}
	if res == Unknown {
		m.x.noteIncomplete("solver returned unknown (timeout) at " + m.where())
	}
	if res == Sat {
		return Sat, m.overlay(mod)
	}
	return res, nil
}

func (m *Machine) overlay(mod Model) Model {
	out := make(Model, len(m.model)+len(mod))
	for k, v := range m.model {
		out[k] = v
	}
	for k, v := range mod {
		out[k] = v
	}
	return out
}

func (m *Machine) namedModel(mod Model) map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range mod {
		if v != 0 {
			t := m.tt.varsBy[k]
			out[fmt.Sprintf("%s#%d", t.name, t.w)] = v
		}
	}
	return out
}

func (m *Machine) setModel(mod Model) {
	m.model = mod
	m.ecache = evalCache{}
}

func (m *Machine) push(alt uint64, mod map[string]uint64) {
	p := make([]uint64, len(m.decs)+1)
	copy(p, m.decs)
	p[len(m.decs)] = alt
	m.x.push(workItem{p, mod})
}

const (
	decForced = 1 << 62
)

func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if b, ok := m.known[c]; ok {
		return b
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		b := d&1 != 0
		if d&decForced != 0 {
			m.learn(m.lit(c, b))
		} else {
			m.addPC(m.lit(c, b))
		}
		return b
	}
	b := m.evalBool(c)
	other := m.lit(c, !b)
	res, mod := m.query(other)
	d := b2u(b)
	if res == Sat {
		m.push(b2u(!b), m.namedModel(mod))
		m.decs = append(m.decs, d)
		m.addPC(m.lit(c, b))
	} else {
		m.decs = append(m.decs, d|decForced)
		m.learn(m.lit(c, b))
	}
	m.x.branches.Add(1)
	return b
}

// choose is an n-way nondeterministic decision; 0 is explored first.
func (m *Machine) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if why != "" {
		m.nondet = true
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		return int(d)
	}
	nm := m.namedModel(m.model)
	for k := n - 1; k >= 1; k-- {
		m.push(uint64(k), nm)
	}
	m.decs = append(m.decs, 0)
	m.x.branches.Add(1)
	return 0
}

// concretize forks over the feasible values of t.
func (m *Machine) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.val
	}
	for i := 0; ; i++ {
		if i > 5000 {
			m.unsupported("more than 5000 values when concretizing %s", why)
		}
		var c uint64
		if m.pos < len(m.prefix) {
			c = m.prefix[m.pos]
			m.pos++
		} else {
			c = t.eval(m.model, m.ecache)
		}
		m.decs = append(m.decs, c)
		if m.branch(m.tt.Eq(t, BV(t.w, c))) {
			return c
		}
	}
}

func (m *Machine) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			m.stop("infeasible", "")
		}
		return
	}
	if b, ok := m.known[c]; ok {
		if !b {
			m.stop("infeasible", "")
		}
		return
	}
	if m.evalBool(c) {
		m.addPC(c)
		return
	}
	res, mod := m.query(c)
	if res != Sat {
		m.stop("infeasible", "")
	}
	m.addPC(c)
	m.setModel(mod)
}

func (m *Machine) assert(c *Term, msg string) {
	m.asserted++
	m.x.asserts.Add(1)
	if c.isConst() {
		if c.val == 0 {
			m.violate("assert", msg, m.model)
		}
		return
	}
	if b, ok := m.known[c]; ok {
		if !b {
			m.violate("assert", msg, m.model)
		}
		return
	}
	m.x.asserts2.Add(1)
	if !m.evalBool(c) {
		m.violate("assert", msg, m.model)
	}
	if m.pos < len(m.prefix) {
		// replaying: decided on an earlier path with the same prefix
		m.learn(c)
		return
	}
	res, mod := m.query(m.tt.Not(c))
	switch res {
	case Sat:
		m.violate("assert", msg, mod)
	case Unsat:
		m.learn(c)
	default:
		m.addPC(c)
	}
}

func (m *Machine) violate(kind, msg string, mod Model) {
	m.violKind, m.violation = kind, msg
	m.setModel(mod)
	m.stop("violation", "%s", msg)
}

// fresh creates a named nondeterministic value.
func (m *Machine) fresh(name string, w uint8) *Term {
	k := m.names[name]
	m.names[name] = k + 1
	t := m.tt.Var(fmt.Sprintf("%s!%d", name, k), w)
	if v, ok := m.w.pending[fmt.Sprintf("%s#%d", t.name, w)]; ok {
		if m.model[uint32(t.val)] != v {
			m.model[uint32(t.val)] = v
		}
	}
	m.choices = append(m.choices, choiceRec{name: name, w: w, term: t})
	return t
}

func (m *Machine) freshChoice(name string, n int) int {
	c := m.choose(n, "")
	m.choices = append(m.choices, choiceRec{name: name, w: 64, val: uint64(c), fix: true})
	return c
}

// ---------- panics of the target ----------

func (m *Machine) goPanic(v iface) {
	panic(&targetPanic{v: v, stack: m.where()})
}

func (m *Machine) goPanicStr(msg string) {
	msg = strings.TrimPrefix(msg, "runtime error: ")
	t := m.prog.runtimeErrT
	if t == nil {
		panic(&targetPanic{v: iface{types.Typ[types.String], "runtime error: " + msg}, stack: m.where()})
	}
	panic(&targetPanic{v: iface{t, msg}, stack: m.where()})
}

func (m *Machine) panicText(v iface) string {
	if v.t == nil {
		return "nil"
	}
	defer func() { recover() }()
	switch x := v.v.(type) {
	case string, *symStr:
		return concStr(x)
	case *Term:
		return fmt.Sprint(int64(x.val))
	}
	if s, ok := m.tryErrorString(v); ok {
		return s
	}
	return v.t.String()
}
