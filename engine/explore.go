package main

// Exploration of all paths of a harness function by a pool of workers.

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type qres struct {
	res   Result
	model Model
}

type Worker struct {
	id      int
	x       *Explorer
	tt      *TermTable
	stats   *SolverStats
	solver  *Solver
	qcache  map[string]qres
	pending map[string]uint64
	hosts   sync.WaitGroup
}

type choiceVal struct {
	N string `json:"n"`
	V uint64 `json:"v"`
}

type violation struct {
	Fn       string      `json:"fn"`
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	Choices  []choiceVal `json:"choices"`
	Schedule []string    `json:"schedule,omitempty"`
	Nondet   bool        `json:"nondet"`
	Decs     []uint64    `json:"decisions"`
	Tier     string      `json:"tier"`
	Pkg      string      `json:"pkg"`
	Where    string      `json:"where"`
}

type sample struct {
	choices []choiceVal
	obs     []string
	nondet  bool // several goroutines: natively repeated when it fails
}

type Explorer struct {
	prog *Program
	fn   *ssa.Function
	name string
	tier string

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []workItem
	busy     int
	stopping bool
	deadline time.Time
	timedOut bool

	branches, asserts, asserts2 atomic.Int64

	counts        map[string]int
	incomplete    map[string]int
	unsupported   map[string]int
	engineErrs    map[string]int
	reached       map[string]int
	bounds        map[string]int64
	funcs         map[*ssa.Function]bool
	viols         []*violation
	known         map[string]string
	knownFindings map[string]bool
	samples       []sample
	sampleSeen    int
	maxSamples    int
	maxViol       int
	steps         int64
	maxDepth      int
	maxPathSteps  int
	stats         SolverStats
	wall          time.Duration
	crossEvery    int
	firstOnly     bool
}

func newExplorer(p *Program, fn *ssa.Function, tier string) *Explorer {
	x := &Explorer{
		prog: p, fn: fn, name: fn.Name(), tier: tier,
		counts: map[string]int{}, incomplete: map[string]int{}, unsupported: map[string]int{},
		engineErrs: map[string]int{}, reached: map[string]int{}, bounds: map[string]int64{},
		funcs: map[*ssa.Function]bool{}, known: map[string]string{}, maxSamples: 12, maxViol: 1,
	}
	x.cond = sync.NewCond(&x.mu)
	return x
}

func (x *Explorer) push(it workItem) {
	x.mu.Lock()
	x.queue = append(x.queue, it)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *Explorer) noteIncomplete(msg string) {
	x.mu.Lock()
	x.incomplete[msg]++
	x.mu.Unlock()
}

func (x *Explorer) noteBound(n string, v int64) {
	x.mu.Lock()
	x.bounds[n] = v
	x.mu.Unlock()
}

func (x *Explorer) noteKnown(id, msg string) {
	x.mu.Lock()
	x.known[id] = msg
	x.mu.Unlock()
}

func (x *Explorer) run(nworkers int, budget time.Duration) {
	t0 := time.Now()
	x.deadline = t0.Add(budget)
	x.queue = []workItem{{}}
	var wg sync.WaitGroup
	stopTimer := time.AfterFunc(budget, func() {
		x.mu.Lock()
		x.timedOut = true
		x.stopping = true
		x.mu.Unlock()
		x.cond.Broadcast()
	})
	for i := 0; i < nworkers; i++ {
		w := &Worker{id: i, x: x, stats: &SolverStats{}}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
			x.mu.Lock()
			x.stats.add(w.stats)
			x.mu.Unlock()
		}()
	}
	wg.Wait()
	stopTimer.Stop()
	x.wall = time.Since(t0)
	if x.timedOut {
		x.incomplete[fmt.Sprintf("time budget of %v used up with %d branches unexplored", budget, len(x.queue))]++
	}
}

func (w *Worker) loop() {
	x := w.x
	defer func() {
		if w.solver != nil {
			w.solver.Close()
		}
	}()
	for {
		x.mu.Lock()
		for len(x.queue) == 0 && x.busy > 0 && !x.stopping {
			x.cond.Wait()
		}
		if x.stopping || len(x.queue) == 0 {
			x.mu.Unlock()
			x.cond.Broadcast()
			return
		}
		it := x.queue[len(x.queue)-1]
		x.queue = x.queue[:len(x.queue)-1]
		x.busy++
		x.mu.Unlock()

		w.runPath(it)

		x.mu.Lock()
		x.busy--
		idle := x.busy == 0 && len(x.queue) == 0
		x.mu.Unlock()
		if idle {
			x.cond.Broadcast()
		}
	}
}

func (w *Worker) fresh() {
	if w.tt == nil || len(w.tt.tab) > 1500000 {
		w.tt = NewTermTable()
		w.qcache = map[string]qres{}
		if w.solver != nil {
			w.solver.Reset(w.tt)
		}
	}
	if w.solver == nil {
		to := 20000
		if w.x.tier == "thorough" {
			to = 120000
		}
		w.solver = NewSolver(w.tt, w.stats, to)
		w.solver.every = 400
		if w.x.tier == "thorough" {
			w.solver.every = 40
		}
	}
}

func (w *Worker) newMachine(it workItem) *Machine {
	w.fresh()
	w.pending = it.model
	m := &Machine{
		x: w.x, w: w, tt: w.tt, prog: w.x.prog, prefix: it.prefix,
		known: map[*Term]bool{}, model: Model{}, ecache: evalCache{},
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]int{}, initDone: map[*ssa.Function]bool{},
		side: map[*value]any{}, names: map[string]int{}, reached: map[string]bool{},
		funcs: map[*ssa.Function]bool{}, mainDone: make(chan *pathStop, 1),
		maxSteps: 3000000, maxPre: 2, mapPerm: 3, opts: map[string]int{},
		reflTypes: map[string]iface{},
	}
	return m
}

func (w *Worker) runPath(it workItem) {
	x := w.x
	m := w.newMachine(it)
	g := m.newGor("main")
	m.cur = g
	fi := x.prog.info(x.fn)
	m.startHost(g, func() { m.callInfo(nil, fi, nil, nil) })
	g.wake <- struct{}{}
	st := <-m.mainDone
	w.hosts.Wait()
	x.finishPath(m, st)
}

func (x *Explorer) choiceVals(m *Machine) []choiceVal {
	var out []choiceVal
	for _, c := range m.choices {
		v := c.val
		if !c.fix {
			v = c.term.eval(m.model, m.ecache)
		}
		out = append(out, choiceVal{c.name, v})
	}
	return out
}

func (x *Explorer) finishPath(m *Machine, st *pathStop) {
	var vi *violation
	kind := st.kind
	nondet := len(m.gs) > 1 || m.nondet || m.opts["nondet"] != 0
	mk := func(k, msg string) *violation {
		return &violation{Fn: x.name, Kind: k, Msg: msg, Choices: x.choiceVals(m), Schedule: m.schedLog,
			Nondet: nondet, Decs: m.decs, Tier: x.tier, Where: ""}
	}
	switch kind {
	case "violation":
		vi = mk(m.violKind, st.msg)
	case "violation-stack":
		vi = mk("stack", st.msg)
	case "steps":
		vi = mk("steps", st.msg)
	}
	var sm *sample
	if kind == "done" && len(m.obs) > 0 && (!nondet || m.opts["validate"] != 0) {
		x.mu.Lock()
		x.sampleSeen++
		n := x.sampleSeen
		take := len(x.samples) < x.maxSamples || (n&(n-1)) == 0
		x.mu.Unlock()
		if take {
			sm = &sample{choices: x.choiceVals(m), nondet: nondet}
			for _, o := range m.obs {
				parts := []string{o.label}
				for i := range o.vals {
					parts = append(parts, m.obsText(o.vals[i], o.types[i]))
				}
				sm.obs = append(sm.obs, strings.Join(parts, " "))
			}
		}
	}
	if os.Getenv("GOSMT_PATHS") != "" {
		fmt.Fprintf(os.Stderr, "PATH %s %s steps=%d decs=%d pc=%d %v\n", kind, st.msg, m.steps, len(m.decs), len(m.pc), x.choiceVals(m))
	}
	x.mu.Lock()
	defer x.mu.Unlock()
	x.counts[kind]++
	x.steps += int64(m.steps)
	x.maxDepth = max(x.maxDepth, len(m.decs))
	x.maxPathSteps = max(x.maxPathSteps, m.steps)
	for f := range m.funcs {
		x.funcs[f] = true
	}
	if kind == "done" {
		for r := range m.reached {
			x.reached[r]++
		}
	}
	switch kind {
	case "bound":
		x.incomplete["bound: "+st.msg]++
	case "unsupported":
		x.unsupported[st.msg]++
	case "engine":
		x.engineErrs[st.msg]++
	case "exit":
		x.incomplete["path ended by process exit: "+st.msg]++
	}
	if sm != nil {
		if len(x.samples) < x.maxSamples {
			x.samples = append(x.samples, *sm)
		} else {
			x.samples[x.sampleSeen%x.maxSamples] = *sm
		}
	}
	if vi != nil {
		if len(x.viols) < 20 {
			x.viols = append(x.viols, vi)
		}
		if len(x.viols) >= x.maxViol {
			x.stopping = true
			x.cond.Broadcast()
		}
	}
}
