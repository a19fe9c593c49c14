package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

type Stats struct {
	queries, sat, unsat, unknown, hard, quick atomic.Int64
	solverNS                                  atomic.Int64
	cacheHits                                 atomic.Int64
}

var stats Stats

// Solver wraps one persistent z3 process used incrementally.
type Solver struct {
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	stack     []*Term // asserted path condition, one push level each
	defined   map[int32]bool
	declared  map[string]Sort
	reals     int
	rv        *realVars
	timeoutMS int
	path      string
	nDefined  int
	dead      bool
	logf      io.Writer
}

func NewSolver(path string, timeoutMS int) *Solver {
	s := &Solver{path: path, timeoutMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.path, "-in", "-smt2")
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.stack = nil
	s.defined = map[int32]bool{}
	s.declared = map[string]Sort{}
	s.reals = 0
	s.nDefined = 0
	s.dead = false
	s.send("(set-option :global-declarations true)\n(set-option :print-success false)\n")
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMS))
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) send(x string) {
	if s.logf != nil {
		io.WriteString(s.logf, x)
	}
	if _, err := s.in.WriteString(x); err != nil {
		s.dead = true
	}
}

func (s *Solver) recv() string {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		s.dead = true
		return "error"
	}
	return strings.TrimSpace(l)
}

// define makes sure t and everything below it is declared/defined.
func (s *Solver) define(t *Term) {
	switch t.op {
	case OConst:
		return
	case OVar:
		if _, ok := s.declared[t.name]; !ok {
			s.declared[t.name] = t.sort
			s.send(fmt.Sprintf("(declare-const %s %s)\n", t.name, t.sort.smt()))
		}
		return
	}
	if s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op == OConst {
				continue
			}
			if a.op == OVar {
				s.define(a)
				continue
			}
			if !s.defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		u := f.t
		st = st[:len(st)-1]
		if s.defined[u.id] {
			continue
		}
		if u.op == OReal {
			s.declReals()
		}
		s.defined[u.id] = true
		s.nDefined++
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", u.id, u.sort.smt(), u.body()))
	}
}

// declReals declares real variables; their box constraints are permanent facts
// (asserted at the current push level, hence re-asserted in boxes()).
func (s *Solver) declReals() {
	if s.rv == nil {
		return
	}
	for ; s.reals < len(s.rv.vars); s.reals++ {
		s.send(fmt.Sprintf("(declare-const r%d Real)\n", s.reals))
	}
}

func (s *Solver) boxes() {
	if s.rv == nil {
		return
	}
	for i, v := range s.rv.vars {
		if i >= s.reals {
			break
		}
		s.send(fmt.Sprintf("(assert (and (<= %s r%d) (<= r%d %s)))\n", ratStr(v.lo), i, i, ratStr(v.hi)))
	}
}

// products asserts what the product variables stand for; queries that are
// unsatisfiable without that are decided in linear arithmetic.
func (s *Solver) products() bool {
	if s.rv == nil {
		return false
	}
	any := false
	for i, v := range s.rv.vars {
		if i >= s.reals || v.mono == nil {
			continue
		}
		any = true
		var sb strings.Builder
		for _, m := range v.mono {
			fmt.Fprintf(&sb, " r%d", m)
		}
		s.send(fmt.Sprintf("(assert (= r%d (*%s)))\n", i, sb.String()))
	}
	return any
}

// sync brings the assertion stack to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.send("(push 1)\n")
		s.send("(assert " + pc[n].ref() + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides satisfiability of pc && extra; on Sat returns a model.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Res, *Model) {
	t0 := time.Now()
	defer func() { stats.solverNS.Add(int64(time.Since(t0))) }()
	stats.queries.Add(1)
	if s.dead || s.nDefined > 400000 {
		s.restart()
	}
	s.sync(pc)
	s.define(extra)
	s.send("(push 1)\n(assert " + extra.ref() + ")\n")
	if s.rv != nil && len(s.rv.vars) > 0 {
		s.declReals()
		s.boxes()
	}
	s.send("(check-sat)\n")
	r := s.recv()
	if r == "sat" && s.products() {
		s.send("(check-sat)\n")
		r = s.recv()
	}
	var res Res
	switch r {
	case "sat":
		res = Sat
		stats.sat.Add(1)
	case "unsat":
		res = Unsat
		stats.unsat.Add(1)
	default:
		res = Unknown
		if r != "unknown" && r != "timeout" {
			debugf("solver said %q", r)
			s.restart()
			stats.unknown.Add(1)
			return Unknown, nil
		}
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.getModel()
		if m == nil {
			res = Unknown
		}
	}
	if !s.dead {
		s.send("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) getModel() *Model {
	m := NewModel()
	var names []string
	for n := range s.declared {
		names = append(names, n)
	}
	nr := 0 // declared variables of other paths do not matter
	if s.rv != nil {
		nr = min(s.reals, len(s.rv.vars))
	}
	for i := 0; i < nr; i++ {
		names = append(names, fmt.Sprintf("r%d", i))
	}
	if len(names) == 0 {
		return m
	}
	for i := 0; i < nr; i++ {
		if s.rv.vars[i].mono != nil {
			s.send("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n")
			break
		}
	}
	s.send("(get-value (" + strings.Join(names, " ") + "))\n")
	s.in.Flush()
	// read a balanced s-expression
	depth := 0
	var sb strings.Builder
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return nil
		}
		if c == '(' {
			depth++
			started = true
		}
		if started {
			sb.WriteByte(c)
		}
		if c == ')' {
			depth--
			if depth == 0 && started {
				break
			}
		}
	}
	s.out.ReadString('\n')
	return parseModel(sb.String(), s.declared)
}

func parseModel(txt string, declared map[string]Sort) *Model {
	m := NewModel()
	e, _ := parseSexp(txt, 0)
	if len(e.list) > 0 && e.list[0].atom == "error" {
		debugf("model error: %s", txt)
		return nil
	}
	for _, p := range e.list {
		if len(p.list) != 2 {
			return nil
		}
		name := p.list[0].atom
		v := p.list[1]
		if strings.HasPrefix(name, "r") && !strings.Contains(name, "_") {
			if q := sexpRat(v); q != nil {
				m.rl[name] = q
			}
			continue
		}
		m.bv[name] = sexpBits(v)
	}
	return m
}

type sexp struct {
	atom string
	list []sexp
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
		i++
	}
	if i < len(s) && s[i] == '(' {
		i++
		var e sexp
		e.list = []sexp{}
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
				i++
			}
			if i >= len(s) || s[i] == ')' {
				return e, i + 1
			}
			var c sexp
			c, i = parseSexp(s, i)
			e.list = append(e.list, c)
		}
	}
	j := i
	for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' && s[j] != '\n' {
		j++
	}
	return sexp{atom: s[i:j]}, j
}

func sexpBits(e sexp) uint64 {
	a := e.atom
	switch {
	case a == "true":
		return 1
	case a == "false":
		return 0
	case strings.HasPrefix(a, "#x"):
		v, _ := strconv.ParseUint(a[2:], 16, 64)
		return v
	case strings.HasPrefix(a, "#b"):
		v, _ := strconv.ParseUint(a[2:], 2, 64)
		return v
	}
	if len(e.list) == 3 && e.list[0].atom == "_" && strings.HasPrefix(e.list[1].atom, "bv") {
		v, _ := strconv.ParseUint(e.list[1].atom[2:], 10, 64)
		return v
	}
	if len(e.list) == 4 && e.list[0].atom == "fp" {
		ex := len(e.list[2].atom) - 2
		if strings.HasPrefix(e.list[2].atom, "#x") {
			ex *= 4
		}
		if ex == 8 {
			return sexpBits(e.list[1])<<31 | sexpBits(e.list[2])<<23 | sexpBits(e.list[3])
		}
		return sexpBits(e.list[1])<<63 | sexpBits(e.list[2])<<52 | sexpBits(e.list[3])
	}
	return 0
}

func sexpRat(e sexp) *big.Rat {
	if e.atom != "" {
		r := new(big.Rat)
		if _, ok := r.SetString(strings.TrimSuffix(e.atom, "?")); ok {
			return r
		}
		return nil
	}
	if len(e.list) == 2 && e.list[0].atom == "-" {
		if x := sexpRat(e.list[1]); x != nil {
			return x.Neg(x)
		}
	}
	if len(e.list) == 3 && e.list[0].atom == "/" {
		x, y := sexpRat(e.list[1]), sexpRat(e.list[2])
		if x != nil && y != nil && y.Sign() != 0 {
			return x.Quo(x, y)
		}
	}
	return nil
}

// slice keeps the constraints transitively sharing variables with extra.
func sliceConstraints(pc []*Term, extra *Term) []*Term {
	vars := map[string]bool{}
	collectVars(extra, vars, map[int32]bool{})
	sets := make([]map[string]bool, len(pc))
	for i, c := range pc {
		sets[i] = map[string]bool{}
		collectVars(c, sets[i], map[int32]bool{})
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i := range pc {
			if in[i] {
				continue
			}
			for v := range sets[i] {
				if vars[v] {
					in[i] = true
					changed = true
					for u := range sets[i] {
						vars[u] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, c := range pc {
		if in[i] || c.op == OReal || extra.op == OReal {
			out = append(out, c)
		}
	}
	return out
}

func collectVars(t *Term, vars map[string]bool, seen map[int32]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if t.op == OVar {
		vars[t.name] = true
		return
	}
	if t.op == OReal {
		vars["$real"] = true
	}
	for _, a := range t.args {
		collectVars(a, vars, seen)
	}
}

// hardCheck runs a portfolio of one-shot solvers on the query.
func hardCheck(pc []*Term, extra *Term, rv *realVars, timeout time.Duration) (Res, *Model, string) {
	stats.hard.Add(1)
	t0 := time.Now()
	defer func() { stats.solverNS.Add(int64(time.Since(t0))) }()
	cs := append(sliceConstraints(pc, extra), extra)
	p := &Solver{defined: map[int32]bool{}, declared: map[string]Sort{}, rv: rv}
	var sb strings.Builder
	p.in = bufio.NewWriter(io.Discard)
	p.logf = &sb
	for _, c := range cs {
		p.define(c)
	}
	p.declReals()
	if p.reals > 0 {
		p.boxes()
		p.products()
	}
	for _, c := range cs {
		p.send("(assert " + c.ref() + ")\n")
	}
	p.in.Flush()
	decls := sb.String()
	var names []string
	for n := range p.declared {
		names = append(names, n)
	}
	for i := 0; i < p.reals; i++ {
		names = append(names, fmt.Sprintf("r%d", i))
	}
	gv := ""
	if len(names) > 0 {
		gv = "(get-value (" + strings.Join(names, " ") + "))\n"
	}
	type cfg struct {
		name string
		args []string
		pre  string
		chk  string
	}
	hasFP := strings.Contains(decls, "FloatingPoint")
	hasReal := p.reals > 0
	cfgs := []cfg{{"z3-new", []string{"-in", "-smt2"}, "", "(check-sat)\n"}}
	if !hasReal && !hasFP {
		cfgs[0].pre = "(set-logic QF_BV)\n"
		cfgs = append(cfgs, cfg{"cvc5", []string{"--produce-models", "--bv-solver=bitblast-internal", "-"}, "(set-logic QF_BV)\n", "(check-sat)\n"})
		cfgs = append(cfgs, cfg{"cvc5", []string{"--produce-models", "--solve-bv-as-int=sum", "-"}, "(set-logic ALL)\n", "(check-sat)\n"})
	} else if hasFP {
		cfgs[0].pre = "(set-logic QF_BVFP)\n"
		cfgs = append(cfgs, cfg{"cvc5", []string{"--produce-models", "-"}, "(set-logic ALL)\n", "(check-sat)\n"})
		cfgs = append(cfgs, cfg{"z3", []string{"-in", "-smt2"}, "(set-logic QF_BVFP)\n", "(check-sat)\n"})
	}
	type ans struct {
		r    Res
		m    *Model
		name string
	}
	ch := make(chan ans, len(cfgs))
	var procs []*exec.Cmd
	for _, c := range cfgs {
		cmd := exec.Command(c.name, c.args...)
		cmd.Stdin = strings.NewReader(c.pre + decls + c.chk + gv)
		procs = append(procs, cmd)
		go func(c cfg, cmd *exec.Cmd) {
			out, _ := cmd.Output()
			txt := strings.TrimSpace(string(out))
			a := ans{r: Unknown, name: c.name}
			switch {
			case strings.HasPrefix(txt, "unsat"):
				a.r = Unsat
			case strings.HasPrefix(txt, "sat"):
				rest := strings.TrimSpace(txt[3:])
				if rest == "" {
					a.r, a.m = Sat, NewModel()
				} else if m := parseModel(rest, p.declared); m != nil {
					a.r, a.m = Sat, m
				}
			}
			if i := strings.Index(txt, "(error"); i >= 0 && a.r == Sat && a.m == nil || i == 0 {
				a.r = Unknown
			}
			ch <- a
		}(c, cmd)
	}
	to := time.After(timeout)
	res := ans{r: Unknown}
	for i := 0; i < len(cfgs); i++ {
		select {
		case a := <-ch:
			if a.r != Unknown {
				res = a
				i = len(cfgs)
			}
		case <-to:
			i = len(cfgs)
		}
	}
	for _, c := range procs {
		if c.Process != nil {
			c.Process.Kill()
		}
	}
	if res.r == Unknown {
		stats.unknown.Add(1)
	} else if res.r == Sat {
		stats.sat.Add(1)
	} else {
		stats.unsat.Add(1)
	}
	return res.r, res.m, res.name
}
