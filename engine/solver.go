package main

// SMT solver process driven over SMT-LIB2 text.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN int
	ModelHits, CacheHits            int
	Time                            time.Duration
	CrossChecked, CrossDisagree     int
}

func (s *SolverStats) add(o *SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.ModelHits += o.ModelHits
	s.CacheHits += o.CacheHits
	s.Time += o.Time
	s.CrossChecked += o.CrossChecked
	s.CrossDisagree += o.CrossDisagree
}

type Solver struct {
	tt      *TermTable
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	stats   *SolverStats
	timeout int // ms
	emitted map[*Term]bool
	every   int // one query in so many is put to cvc5 as well
	decl    map[*Term]bool
	log     *os.File
}

func NewSolver(tt *TermTable, st *SolverStats, timeoutMs int) *Solver {
	s := &Solver{tt: tt, stats: st, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(&engineError{"cannot start z3-new: " + err.Error()})
	}
	s.in, s.inRaw, s.out = bufio.NewWriterSize(w, 1<<16), w, bufio.NewReaderSize(r, 1<<16)
	s.emitted = map[*Term]bool{}
	if p := os.Getenv("GOSMT_LOG"); p != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%p", p, s))
	}
	s.send("(set-option :global-declarations true)\n(set-option :print-success false)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
	s.send("(set-logic " + s.logic() + ")\n")
}

func (s *Solver) send(t string) {
	s.in.WriteString(t)
	if s.log != nil {
		s.log.WriteString(t)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Reset drops the process and everything emitted (called when the term table is renewed).
func (s *Solver) Reset(tt *TermTable) {
	s.Close()
	s.tt = tt
	s.start()
}

func (s *Solver) emit(t *Term) {
	if t == nil || t.op == OConst || s.emitted[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.emitted[f.t] || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < 3 {
			var c *Term
			switch f.i {
			case 0:
				c = f.t.a
			case 1:
				c = f.t.b
			case 2:
				c = f.t.c
			}
			f.i++
			if c != nil && c.op != OConst && !s.emitted[c] {
				st = append(st, fr{c, 0})
			}
			continue
		}
		x := f.t
		s.emitted[x] = true
		if x.op == OVar {
			s.send(fmt.Sprintf("(declare-const %s %s)\n", x.ref(), sortName(x.w)))
		} else {
			s.send(fmt.Sprintf("(define-fun %s () %s %s)\n", x.ref(), sortName(x.w), x.body()))
		}
		st = st[:len(st)-1]
	}
}

func (s *Solver) readLine() string {
	line, err := s.out.ReadString('\n')
	if err != nil {
		panic(&engineError{"solver died: " + err.Error()})
	}
	return strings.TrimSpace(line)
}

// Check decides the conjunction of the given constraints; on Sat it returns values for their variables.
func (s *Solver) Check(cs []*Term) (Result, Model) {
	t0 := time.Now()
	defer func() {
		s.stats.Time += time.Since(t0)
		if e := recover(); e != nil {
			s.Reset(s.tt) // whatever is left in the pipe belongs to this query
			panic(e)
		}
	}()
	s.stats.Queries++
	var vars []uint32
	for _, c := range cs {
		s.emit(c)
		vars = mergeVars(vars, c.vars)
	}
	s.send("(push)\n")
	for _, c := range cs {
		s.send("(assert " + c.ref() + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	var res Result
	line := s.readLine()
	switch line {
	case "sat":
		res = Sat
		s.stats.SatN++
	case "unsat":
		res = Unsat
		s.stats.UnsatN++
	case "unknown", "timeout":
		res = Unknown
		s.stats.UnknownN++
	default:
		panic(&engineError{"solver said: " + line})
	}
	var m Model
	if res == Sat {
		m = Model{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				fmt.Fprintf(&sb, "v%d ", v)
			}
			sb.WriteString("))\n")
			s.send(sb.String())
			s.in.Flush()
			depth := 0
			var txt strings.Builder
			for {
				l, err := s.out.ReadString('\n')
				if err != nil {
					panic(&engineError{"solver died in get-value"})
				}
				txt.WriteString(l)
				depth += strings.Count(l, "(") - strings.Count(l, ")")
				if depth <= 0 {
					break
				}
			}
			parseModel(txt.String(), m)
		}
	}
	s.send("(pop)\n")
	if s.every > 0 && s.stats.Queries%s.every == 3 && res != Unknown {
		s.crossCheck(cs, res)
	}
	return res, m
}

func parseModel(txt string, m Model) {
	if strings.Contains(txt, "(error") {
		panic(&engineError{"solver error: " + txt})
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	for i := 0; i+1 < len(f); {
		name := f[i]
		if name[0] != 'v' {
			panic(&engineError{"cannot parse model: " + txt})
		}
		idx, err := strconv.Atoi(name[1:])
		if err != nil {
			panic(&engineError{"cannot parse model: " + txt})
		}
		v := f[i+1]
		i += 2
		switch {
		case v == "true":
			m[uint32(idx)] = 1
		case v == "false":
			m[uint32(idx)] = 0
		case strings.HasPrefix(v, "#x"):
			u, _ := strconv.ParseUint(v[2:], 16, 64)
			m[uint32(idx)] = u
		case strings.HasPrefix(v, "#b"):
			u, _ := strconv.ParseUint(v[2:], 2, 64)
			m[uint32(idx)] = u
		case v == "_":
			u, _ := strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			m[uint32(idx)] = u
			i += 2
		default:
			panic(&engineError{"cannot parse model value " + v})
		}
	}
}

// standalone renders the constraints as a self-contained SMT-LIB2 script.
func standalone(cs []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.op == OConst || seen[t] {
			return
		}
		seen[t] = true
		walk(t.a)
		walk(t.b)
		walk(t.c)
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.ref(), sortName(t.w))
		} else {
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", t.ref(), sortName(t.w), t.body())
		}
	}
	for _, c := range cs {
		walk(c)
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

func (s *Solver) crossCheck(cs []*Term, res Result) {
	cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000")
	cmd.Stdin = strings.NewReader(standalone(cs))
	out, _ := cmd.Output()
	o := strings.TrimSpace(string(out))
	switch o {
	case "sat", "unsat":
		s.stats.CrossChecked++
		if (o == "sat") != (res == Sat) {
			s.stats.CrossDisagree++
			panic(&engineError{"z3 and cvc5 disagree"})
		}
	}
}

func (s *Solver) logic() string {
	if l := os.Getenv("GOSMT_LOGIC"); l != "" {
		return l
	}
	return "ALL"
}
