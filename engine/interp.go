package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------- control-flow signals ----------

type targetPanic struct {
	v   Val // interface value
	msg string
	at  string
}

type pathEnd struct {
	why string // "", "assume", "unsupported: ...", "limit", "killed"
}

type mergeAbort struct {
	dec int // decision index of the merge to disable
	why string
}

type unsupErr struct{ msg string }

func unsupported(msg string) unsupErr { return unsupErr{msg} }

type poison struct{ dec int }

type Tup struct{ v []Val }

type Frame struct {
	fi     *fnInfo
	regs   []Val
	res    Val
	defers []deferred
	tp     *targetPanic // active panic while running deferred calls
	recd   bool
	caller *Frame
	depth  int
	cur    *cin
}

type deferred struct {
	c    *cin
	fn   Val
	args []Val
	bi   string
}

type undo struct {
	p   *Val
	old Val
	s   Sort
	f   func()
}

// decision codes
const (
	dFalse = iota
	dTrue
	dForcedFalse
	dForcedTrue
	dMerge
	dNoMerge
	dProved
	dViolated
)

type ndRec struct {
	name string
	kind string // u8,u16,...,f32,lin32,bool
	t    *Term
	rv   int32
	lo   float64
}

type obsRec struct {
	label string
	v     Val
	t     tinfo
}

type Path struct {
	w       *Worker
	tb      *TB
	pc      []*Term
	known   map[*Term]bool
	facts   []*Term
	kb      map[*Term]kbits
	kbl     []kbUndo
	kbm     []int
	model   *Model
	prefix  []int64
	pos     int
	decs    []int64
	nds     []ndRec
	obs     []obsRec
	rv      realVars
	trail   []undo
	mergeOn bool
	mdepth  int
	soft    map[*Term]softRes
	loose   int   // inside a side whose feasibility is not known: the model need not satisfy pc
	mdecs   []int // decision indices of open merges
	steps   int64
	maxStep int64
	depth   int
	alloc   int64
	reach   map[string]bool
	incompl int
	why     []string
	cfg     map[string]int
	sched   *Sched
	pools   map[*Val]*poolState
	cur     *Frame
	harness string
	ufs     int
	pows    map[[2]*Term]*Term
	known0  []string // known findings observed
	msites  map[int]*cblock
	zw      map[*Val]*zlibW
	mtx     map[*Val]*mutexState
	events  []string
	uniq    int
	race    *raceState
}

func (p *Path) ctxString(fr *Frame) string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 6; f = f.caller {
		pos := ""
		if f.cur != nil && f.cur.in != nil {
			ps := f.fi.fn.Prog.Fset.Position(f.cur.in.Pos())
			pos = fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fi.fn.Name() + "@" + pos)
		n++
	}
	return sb.String()
}

func shortFile(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		if j := strings.LastIndex(s[:i], "/"); j >= 0 {
			return s[j+1:]
		}
	}
	return s
}

func (p *Path) tpanic(msg string) {
	panic(&targetPanic{v: Val{p: &Iface{t: types.Typ[types.String], v: strVal(msg)}}, msg: msg, at: p.ctxString(p.cur)})
}

// ---------- path condition ----------

func (p *Path) knownVal(c *Term) (bool, bool) {
	if p.known[c] {
		return true, true
	}
	n := p.tb.Not(c)
	if p.known[n] {
		return false, true
	}
	return false, false
}

func (p *Path) fact(c *Term) {
	if c.isConst() || p.known[c] {
		return
	}
	if c.op == OBAnd {
		p.fact(c.args[0])
		p.fact(c.args[1])
	}
	if c.op == OBNot && c.args[0].op == OBOr {
		p.fact(p.tb.Not(c.args[0].args[0]))
		p.fact(p.tb.Not(c.args[0].args[1]))
	}
	p.known[c] = true
	p.facts = append(p.facts, c)
	p.kbm = append(p.kbm, len(p.kbl))
	p.learnFact(c)
}

func (p *Path) addPC(c *Term) {
	if c.isConst() || p.known[c] {
		return
	}
	p.pc = append(p.pc, c)
	p.fact(c)
}

func (p *Path) popTo(npc, nf int) {
	p.pc = p.pc[:npc]
	for _, f := range p.facts[nf:] {
		delete(p.known, f)
	}
	if nf < len(p.kbm) {
		p.kbUndoTo(p.kbm[nf])
	}
	p.kbm = p.kbm[:nf]
	p.facts = p.facts[:nf]
}

func (p *Path) check(c *Term) (Res, *Model) {
	if c.isConst() {
		if c.k == 0 {
			return Unsat, nil
		}
		return Sat, p.model
	}
	if debugOn {
		t0 := time.Now()
		defer func() { timeSite(p, time.Since(t0)) }()
	}
	if p.loose == 0 {
		if m := p.quickSat(c); m != nil {
			return Sat, m
		}
	}
	s := p.w.solver
	s.rv = &p.rv
	if p.w.ex.expired() {
		panic(pathEnd{"deadline"})
	}
	r, m := s.Check(p.pc, c, true)
	if r == Unknown {
		to := p.w.ex.hardTO
		r, m, _ = hardCheck(p.pc, c, &p.rv, to)
		if r == Sat && m != nil {
			// the sliced-away variables keep their current values
			full := p.model.clone()
			for k, v := range m.bv {
				full.bv[k] = v
			}
			for k, v := range m.rl {
				full.rl[k] = v
			}
			m = full
			for _, q := range p.pc {
				if m.Eval(q) == 0 {
					debugf("hard model does not satisfy pc")
					return Unknown, nil
				}
			}
		}
	}
	if r == Sat && p.w.ex.selfCheck {
		for _, q := range append(append([]*Term{}, p.pc...), c) {
			if q.op != OReal && m.Eval(q) == 0 {
				p.w.ex.note("MODEL-MISMATCH " + termStr(q, 6))
			}
		}
	}
	return r, m
}

// softRes is a remembered result of checkSoft.
type softRes struct {
	r  Res
	pc []*Term
}

// checkSoft is check with a short time limit. Results other than Sat are remembered, so that
// the same computation is merged in the same way, and yields the same terms, when it is repeated.
func (p *Path) checkSoft(c *Term) (Res, *Model) {
	if c.isConst() || !p.w.ex.softMerge {
		return p.check(c)
	}
	if debugOn {
		t0 := time.Now()
		defer func() { timeSite(p, time.Since(t0)) }()
	}
	if o, ok := p.soft[c]; ok {
		if o.r == Unknown {
			return Unknown, nil
		}
		same := len(o.pc) <= len(p.pc)
		for i := 0; same && i < len(o.pc); i++ {
			same = o.pc[i] == p.pc[i]
		}
		if same {
			return Unsat, nil
		}
	}
	if p.loose == 0 {
		if m := p.quickSat(c); m != nil {
			return Sat, m
		}
	}
	if p.w.ex.expired() {
		panic(pathEnd{"deadline"})
	}
	s := p.w.solver
	s.rv = &p.rv
	s.send("(set-option :timeout 400)\n")
	r, m := s.Check(p.pc, c, true)
	s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMS))
	if r != Sat {
		if p.soft == nil {
			p.soft = map[*Term]softRes{}
		}
		p.soft[c] = softRes{r, append([]*Term{}, p.pc...)}
	}
	return r, m
}

func (p *Path) abortMerge(why string) {
	if p.mdepth > 0 {
		panic(mergeAbort{p.mdecs[0], why})
	}
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) next() int64 {
	d := p.prefix[p.pos]
	p.pos++
	p.decs = append(p.decs, d)
	return d
}

func (p *Path) dec(d int64) {
	p.decs = append(p.decs, d)
	p.pos = len(p.decs)
}

func (p *Path) branch(c *Term) bool {
	c = p.norm(c)
	if c.isConst() {
		return c.k != 0
	}
	if v, ok := p.knownVal(c); ok {
		return v
	}
	if p.replaying() {
		switch p.next() {
		case dFalse:
			p.addPC(p.tb.Not(c))
			return false
		case dTrue:
			p.addPC(c)
			return true
		case dForcedFalse:
			p.fact(p.tb.Not(c))
			return false
		case dForcedTrue:
			p.fact(c)
			return true
		}
		panic(pathEnd{"replay mismatch"})
	}
	mv := p.model.Eval(c) != 0
	mine, other := p.tb.Not(c), c
	var my int64
	if mv {
		mine, other = c, p.tb.Not(c)
		my = 1
	}
	r, m := p.check(other)
	switch r {
	case Unsat:
		p.dec(dForcedFalse + my)
		p.fact(mine)
		return mv
	case Sat:
		p.abortMerge("fork")
		if debugOn {
			forkSite(p)
		}
		p.w.ex.push(p, append(append([]int64(nil), p.decs...), 1-my), m)
	case Unknown:
		p.incompl++
		p.note("unknown branch at " + p.ctxString(p.cur))
		p.abortMerge("unknown")
	}
	p.dec(my)
	p.addPC(mine)
	return mv
}

func (p *Path) note(s string) {
	if len(p.why) < 20 {
		p.why = append(p.why, s)
	}
}

// feasible classifies both directions of c: can be true, can be false. It is used
// before merging. Model for the direction not taken by p.model is returned.
func (p *Path) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if v, ok := p.knownVal(c); ok {
		if !v {
			panic(pathEnd{"assume"})
		}
		return
	}
	if !p.replaying() && p.model.Eval(c) == 0 {
		r, m := p.check(c)
		if r == Unsat {
			panic(pathEnd{"assume"})
		}
		if r == Unknown {
			p.incompl++
			p.note("unknown assume")
			panic(pathEnd{"unknown"})
		}
		p.abortMerge("assume")
		p.model = m
	} else if p.mdepth > 0 {
		p.abortMerge("assume")
	}
	p.addPC(c)
}

// choose is an unconstrained n-way decision (scheduling).
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		return int(p.next())
	}
	p.abortMerge("choose")
	for i := n - 1; i > 0; i-- {
		p.w.ex.push(p, append(append([]int64(nil), p.decs...), int64(i)), p.model)
	}
	p.dec(0)
	return 0
}

// concretise picks a concrete value for t, forking over all possibilities.
func (p *Path) concretise(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isConst() {
			return t.k
		}
		var v uint64
		if p.replaying() {
			v = uint64(p.next())
		} else {
			v = p.model.Eval(t)
			p.dec(int64(v))
		}
		var e *Term
		if t.sort == SBool {
			e = t
			if v == 0 {
				e = p.tb.Not(t)
			}
		} else {
			e = p.tb.Eq(t, p.tb.BV(t.sort, v))
		}
		if p.branch(e) {
			return v
		}
		if n > p.w.ex.maxConc {
			p.incompl++
			p.note("too many values at " + p.ctxString(p.cur))
			panic(pathEnd{"limit"})
		}
	}
}

func (p *Path) concInt(v Val, t tinfo) int {
	if v.p == nil {
		if t.signed {
			return int(sx(v.c, t.sort))
		}
		return int(v.c)
	}
	u := p.concretise(p.toTerm(v, t.sort))
	if t.signed {
		return int(sx(u, t.sort))
	}
	return int(u)
}

func (p *Path) toTerm(v Val, s Sort) *Term {
	switch x := v.p.(type) {
	case nil:
		if s == SBool {
			return p.tb.Bool(v.c != 0)
		}
		if s.isFP() {
			return p.tb.FPc(s, v.c)
		}
		return p.tb.BV(s, v.c)
	case *Term:
		return x
	case *poison:
		panic(mergeAbort{x.dec, "poison"})
	case *Aff, *affBits:
		panic(unsupported("real-valued operand in bit-precise operation"))
	}
	panic(fmt.Sprintf("toTerm %T", v.p))
}

func fromTerm(t *Term) Val {
	if t.op == OConst {
		return Val{c: t.k}
	}
	return Val{p: t}
}

// ---------- memory ----------

func (p *Path) setCell(c *Val, v Val, s Sort) {
	p.trail = append(p.trail, undo{p: c, old: *c, s: s})
	*c = v
}

func (p *Path) storeInto(c *Val, v Val, s Sort) {
	if p.race != nil && p.racing() {
		p.raceStore(c)
	}
	if a, ok := c.p.(*Agg); ok {
		switch src := v.p.(type) {
		case *Agg:
			p.storeAgg(a, src)
			return
		case nil:
			panic("store nil agg")
		case *poison:
			panic(mergeAbort{src.dec, "poison"})
		default:
			panic(fmt.Sprintf("store %T into agg", v.p))
		}
	}
	if b, ok := v.p.(*Agg); ok {
		// cell not yet holding its aggregate (should not happen)
		p.setCell(c, copyVal(Val{p: b}), s)
		return
	}
	p.setCell(c, v, s)
}

func (p *Path) storeAgg(a, src *Agg) {
	if src.e == nil && a.e == nil {
		return
	}
	d, s := a.els(), src.els()
	if len(d) != len(s) {
		panic("agg size")
	}
	// guard against overlapping self-assignment: src is always a value copy
	for i := range d {
		if x, ok := d[i].p.(*Agg); ok {
			p.storeAgg(x, s[i].p.(*Agg))
		} else {
			p.trail = append(p.trail, undo{p: &d[i], old: d[i], s: a.sortOf(i)})
			d[i] = s[i]
		}
	}
}

func (p *Path) load(ptr Val, t tinfo) Val {
	switch x := ptr.p.(type) {
	case *Val:
		if p.race != nil && p.racing() {
			p.raceLoad(x)
		}
		if x.p == nil {
			return *x
		}
		if ps, ok := x.p.(*poison); ok {
			panic(mergeAbort{ps.dec, "poison"})
		}
		if _, ok := x.p.(*Agg); ok {
			return copyVal(*x)
		}
		return *x
	case nil:
		p.tpanic("nil pointer dereference")
	case *SymPtr:
		return p.loadSym(x, t)
	case *poison:
		panic(mergeAbort{x.dec, "poison"})
	}
	panic(unsupported(fmt.Sprintf("load through %T", ptr.p)))
}

func (p *Path) symCell(x *SymPtr, i int) *Val {
	c := &x.a.els()[x.off+i]
	for _, f := range x.path {
		c = &c.p.(*Agg).els()[f]
	}
	return c
}

// resolve makes the pointer concrete.
func (p *Path) resolve(ptr Val) Val {
	if x, ok := ptr.p.(*SymPtr); ok {
		i := p.concretise(x.idx)
		return Val{p: p.symCell(x, int(i))}
	}
	return ptr
}

const muxLimit = 4096

func (p *Path) loadSym(x *SymPtr, t tinfo) Val {
	if t.kind == kOther || t.kind == kString || x.n > muxLimit {
		return p.load(p.resolve(Val{p: x}), t)
	}
	return p.mux(x.n, x.idx, t, func(i int) Val { return *p.symCell(x, i) })
}

// mux builds select(get(0..n-1), idx).
func (p *Path) mux(n int, idx *Term, t tinfo, get func(i int) Val) Val {
	hasAff := false
	lo := int(idx.umin())
	hi := n - 1
	if u := idx.umax(); u < uint64(hi) {
		hi = int(u)
	}
	if lo > hi {
		lo = hi
	}
	terms := make([]*Term, n)
	for i := lo; i <= hi; i++ {
		v := get(i)
		if _, ok := v.p.(*Aff); ok {
			hasAff = true
			break
		}
		terms[i] = p.toTerm(v, t.sort)
	}
	if hasAff {
		i := p.concretise(idx)
		return get(int(i))
	}
	for i := 0; i < lo; i++ {
		terms[i] = terms[lo]
	}
	for i := hi + 1; i < n; i++ {
		terms[i] = terms[hi]
	}
	nb := 0
	for 1<<nb < n {
		nb++
	}
	if nb > int(idx.sort) {
		nb = int(idx.sort)
	}
	var rec func(base, bit int) *Term
	rec = func(base, bit int) *Term {
		if base >= n {
			return nil
		}
		if bit < 0 {
			return terms[base]
		}
		l := rec(base, bit-1)
		h := rec(base|1<<bit, bit-1)
		if h == nil || h == l {
			return l
		}
		b := p.tb.Eq(p.tb.Extract(idx, uint64(bit), 1), p.tb.BV(1, 1))
		return p.tb.Ite(b, h, l)
	}
	return fromTerm(rec(0, nb-1))
}

func (p *Path) store(ptr, v Val, t tinfo) {
	switch x := ptr.p.(type) {
	case *Val:
		p.storeInto(x, v, t.sort)
		return
	case nil:
		p.tpanic("nil pointer dereference")
	case *SymPtr:
		_, isAff := v.p.(*Aff)
		if t.kind == kOther || t.kind == kString || x.n > 512 || isAff {
			p.store(p.resolve(ptr), v, t)
			return
		}
		for i := 0; i < x.n; i++ {
			if _, ok := p.symCell(x, i).p.(*Aff); ok {
				p.store(p.resolve(ptr), v, t)
				return
			}
		}
		nv := p.toTerm(v, t.sort)
		for i := 0; i < x.n; i++ {
			c := p.symCell(x, i)
			o := p.toTerm(*c, t.sort)
			e := p.tb.Eq(x.idx, p.tb.BV(x.idx.sort, uint64(i)))
			m := fromTerm(p.tb.Ite(e, nv, o))
			if m != *c {
				p.setCell(c, m, t.sort)
			}
		}
		return
	case *poison:
		panic(mergeAbort{x.dec, "poison"})
	}
	panic(unsupported(fmt.Sprintf("store through %T", ptr.p)))
}

func (p *Path) rollback(mark int) {
	for i := len(p.trail) - 1; i >= mark; i-- {
		u := &p.trail[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
		u.old = Val{}
		u.p = nil
		u.f = nil
	}
	p.trail = p.trail[:mark]
}

// ---------- calls ----------

func (p *Path) get(fr *Frame, o *opnd) Val {
	switch o.k {
	case okReg:
		v := fr.regs[o.i]
		if ps, ok := v.p.(*poison); ok {
			panic(mergeAbort{ps.dec, "poison reg"})
		}
		if len(p.known) > 0 {
			if t, ok := v.p.(*Term); ok {
				if n := p.norm(t); n != t {
					return fromTerm(n)
				}
			}
		}
		return v
	case okGlobal:
		return Val{p: p.w.glob(o.i)}
	}
	return o.v
}

const maxDepth = 900

func (p *Path) call(fi *fnInfo, args, binds []Val) Val {
	if fi.intr != nil {
		return fi.intr(p, p.cur, args)
	}
	if !fi.hasBody {
		panic(unsupported("no body: " + fi.name))
	}
	if fi.count {
		p.w.cover(fi)
	}
	if p.depth > maxDepth {
		p.tpanic("stack overflow (call depth)")
	}
	fr := &Frame{fi: fi, regs: make([]Val, fi.nregs), caller: p.cur}
	copy(fr.regs, args)
	copy(fr.regs[fi.nparams:], binds)
	saved := p.cur
	p.cur = fr
	p.depth++
	if fi.hasDefer {
		p.runDeferFrame(fr)
	} else {
		p.runFrom(fr, 0, -1, -2)
	}
	p.depth--
	p.cur = saved
	return fr.res
}

func (p *Path) callVal(f Val, args []Val) Val {
	switch x := f.p.(type) {
	case *ssa.Function:
		return p.call(getFn(x), args, nil)
	case *Closure:
		return p.call(getFn(x.fn), args, x.binds)
	case *NativeFn:
		return x.f(p, args)
	case nil:
		p.tpanic("nil function call")
	case *poison:
		panic(mergeAbort{x.dec, "poison"})
	}
	panic(unsupported(fmt.Sprintf("call of %T", f.p)))
}

// runDeferFrame executes a frame having defer statements.
func (p *Path) runDeferFrame(fr *Frame) {
	depth := p.depth
	var tp *targetPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				if t, ok := r.(*targetPanic); ok {
					tp = t
					return
				}
				panic(r)
			}
		}()
		p.runFrom(fr, 0, -1, -2)
	}()
	if tp == nil {
		return
	}
	p.depth = depth
	p.cur = fr
	fr.tp = tp
	p.runDefers(fr)
	if fr.tp != nil && !fr.recd {
		panic(fr.tp)
	}
	fr.tp = nil
	// recovered: results come from the recover block (named results) or are zero
	if fr.fi.recov >= 0 {
		p.runFrom(fr, fr.fi.recov, -1, -2)
	} else {
		fr.res = zeroResults(fr.fi.fn.Signature)
	}
}

func zeroResults(s *types.Signature) Val {
	n := s.Results().Len()
	switch n {
	case 0:
		return Val{}
	case 1:
		return zero(s.Results().At(0).Type())
	}
	t := make([]Val, n)
	for i := range t {
		t[i] = zero(s.Results().At(i).Type())
	}
	return Val{p: &Tup{t}}
}

func (p *Path) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := p.depth
			defer func() {
				if r := recover(); r != nil {
					if t, ok := r.(*targetPanic); ok {
						p.depth = depth
						p.cur = fr
						fr.tp = t
						fr.recd = false
						return
					}
					panic(r)
				}
			}()
			if d.bi != "" {
				p.builtin(fr, d.c, d.bi, d.args)
			} else {
				p.callVal(d.fn, d.args)
			}
		}()
	}
	if fr.tp != nil && fr.recd {
		fr.tp = nil
	}
}

// runFrom executes blocks of fr starting at b (entered from prev) until the
// function returns (false) or control reaches block stop (true; its phis have
// been evaluated). stop == -2 means never.
func (p *Path) runFrom(fr *Frame, b, prev, stop int) bool {
	skipPhis := false
	for {
		cb := &fr.fi.blocks[b]
		if len(cb.phis) > 0 && !skipPhis {
			p.phis(fr, cb, prev)
		}
		skipPhis = false
		if b == stop {
			return true
		}
		n := len(cb.ins)
		p.steps += int64(n)
		if p.steps > p.maxStep {
			p.steps = 0
			p.stepLimit(fr)
		}
		for i := 0; i < n-1; i++ {
			c := &cb.ins[i]
			fr.cur = c
			p.exec(fr, c)
		}
		c := &cb.ins[n-1]
		fr.cur = c
		switch c.op {
		case cJump:
			prev, b = b, cb.succ[0]
		case cIf:
			v := p.get(fr, &c.a[0])
			if v.p == nil {
				prev = b
				if v.c != 0 {
					b = cb.succ[0]
				} else {
					b = cb.succ[1]
				}
				continue
			}
			t := v.p.(*Term)
			if p.mergeOn {
				done, ret := p.tryMerge(fr, cb, b, t)
				if ret {
					return false
				}
				if done >= 0 {
					if done == stop {
						return true
					}
					b = done
					skipPhis = true
					continue
				}
			}
			prev = b
			if p.branch(t) {
				b = cb.succ[0]
			} else {
				b = cb.succ[1]
			}
		case cReturn:
			switch len(c.a) {
			case 0:
				fr.res = Val{}
			case 1:
				fr.res = p.get(fr, &c.a[0])
			default:
				t := make([]Val, len(c.a))
				for i := range c.a {
					t[i] = p.get(fr, &c.a[i])
				}
				fr.res = Val{p: &Tup{t}}
			}
			return false
		case cPanic:
			v := p.get(fr, &c.a[0])
			panic(&targetPanic{v: v, msg: panicMsg(v), at: p.ctxString(fr)})
		default:
			p.exec(fr, c)
			return false
		}
	}
}

func (p *Path) stepLimit(fr *Frame) {
	if p.w.ex.expired() {
		panic(pathEnd{"deadline"})
	}
	p.depth = 0
	panic(&targetPanic{v: Val{p: &Iface{t: types.Typ[types.String], v: strVal("step limit")}}, msg: "step limit (possible non-termination)", at: p.ctxString(fr)})
}

func panicMsg(v Val) string {
	if i, ok := v.p.(*Iface); ok {
		if s, ok := i.v.p.(string); ok {
			return s
		}
		return "panic value of type " + i.t.String()
	}
	return "panic(nil)"
}

func (p *Path) phis(fr *Frame, cb *cblock, prev int) {
	k := 0
	for i, q := range cb.pred {
		if q == prev {
			k = i
			break
		}
	}
	if len(cb.phis) == 1 {
		fr.regs[cb.phis[0].dst] = p.get(fr, &cb.phis[0].edges[k])
		return
	}
	var buf [16]Val
	tmp := buf[:0]
	for i := range cb.phis {
		e := &cb.phis[i].edges[k]
		if e.k == okReg {
			tmp = append(tmp, fr.regs[e.i])
		} else {
			tmp = append(tmp, p.get(fr, e))
		}
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = tmp[i]
	}
}

// ---------- state merging ----------

var mergeFail = newSyncMap[*cblock, int]()

type sideRes struct {
	ret    bool
	res    Val
	regs   []Val
	writes map[*Val]Val
	sorts  map[*Val]Sort
	order  []*Val
}

// tryMerge returns (joinBlock, false) when merged at a join, (-1, true) when
// merged at function return, (-1,false) when not merged.
func (p *Path) tryMerge(fr *Frame, cb *cblock, b int, c *Term) (int, bool) {
	j := fr.fi.ipdom[b]
	if j < 0 {
		return -1, false
	}
	if j == len(fr.fi.blocks) && fr.fi.hasDefer {
		return -1, false
	}
	if _, ok := p.knownVal(c); ok {
		return -1, false
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		switch d {
		case dNoMerge:
			p.next()
			return -1, false
		case dMerge:
		default:
			return -1, false // forced branch
		}
	}
	mi := len(p.decs)
	var mT, mF *Model
	var looseT, looseF bool
	if p.replaying() {
		p.next()
		if p.msites == nil {
			p.msites = map[int]*cblock{}
		}
		p.msites[mi] = cb
		mT, mF = p.model, p.model
	} else {
		if n, _ := mergeFail.get(cb); n >= 3 {
			p.dec(dNoMerge)
			return -1, false
		}
		mv := p.model.Eval(c) != 0
		other := c
		if mv {
			other = p.tb.Not(c)
		}
		r, m := p.checkSoft(other)
		if r == Unsat {
			if mv {
				p.dec(dForcedTrue)
				p.fact(c)
				// caller must take the forced branch
			} else {
				p.dec(dForcedFalse)
				p.fact(p.tb.Not(c))
			}
			return -1, false
		}
		if r == Unknown {
			// merging an infeasible side is harmless, so its feasibility need not be decided
			m = p.model
			if mv {
				looseF = true
			} else {
				looseT = true
			}
		}
		p.dec(dMerge)
		if p.msites == nil {
			p.msites = map[int]*cblock{}
		}
		p.msites[mi] = cb
		mT, mF = p.model, m
		if !mv {
			mT, mF = m, p.model
		}
	}
	mark := len(p.trail)
	npc, nf := len(p.pc), len(p.facts)
	saved := append([]Val(nil), fr.regs...)
	savedModel := p.model
	p.mdepth++
	p.mdecs = append(p.mdecs, mi)
	stop := j
	if j == len(fr.fi.blocks) {
		stop = -2
	}
	nobs, nnd := len(p.obs), len(p.nds)
	side := func(cond *Term, m *Model, succ int, loose bool) *sideRes {
		p.model = m
		if loose {
			p.loose++
			defer func() {
				p.loose--
				if r := recover(); r != nil {
					p.model = savedModel
					switch x := r.(type) {
					case mergeAbort:
						panic(r)
					case pathEnd:
						if x.why == "deadline" {
							panic(r)
						}
					case error:
						panic(r)
					}
					panic(mergeAbort{p.mdecs[0], "end of a speculative side"})
				}
			}()
		}
		p.addPC(cond)
		reached := p.runFrom(fr, succ, b, stop)
		s := &sideRes{ret: !reached, res: fr.res, writes: map[*Val]Val{}, sorts: map[*Val]Sort{}}
		if len(p.obs) != nobs || len(p.nds) != nnd {
			p.abortMerge("observe/nondet in merge")
		}
		s.regs = append([]Val(nil), fr.regs...)
		for i := mark; i < len(p.trail); i++ {
			u := &p.trail[i]
			if u.f != nil {
				p.abortMerge("side effect")
			}
			if _, ok := s.writes[u.p]; !ok {
				s.order = append(s.order, u.p)
				s.writes[u.p] = *u.p
				s.sorts[u.p] = u.s
			} else if s.sorts[u.p] >= SOther {
				s.sorts[u.p] = u.s
			}
		}
		p.rollback(mark)
		p.popTo(npc, nf)
		copy(fr.regs, saved)
		return s
	}
	// nested failure inside a merge aborts to the outermost merge by panic
	nc := p.tb.Not(c)
	A := side(c, mT, cb.succ[0], looseT)
	B := side(nc, mF, cb.succ[1], looseF)
	p.model = savedModel
	p.mdepth--
	p.mdecs = p.mdecs[:len(p.mdecs)-1]
	if A.ret != B.ret {
		panic(mergeAbort{mi, "return mismatch"})
	}
	merge := func(x, y Val, s Sort, regT *tinfo) Val {
		v, ok := p.mergeVal(c, x, y, s)
		if !ok {
			return Val{p: &poison{mi}}
		}
		return v
	}
	for i := range fr.regs {
		if A.regs[i] == B.regs[i] || sameVal(A.regs[i], B.regs[i]) {
			fr.regs[i] = A.regs[i]
			continue
		}
		fr.regs[i] = merge(A.regs[i], B.regs[i], fr.fi.regT[i].sort, nil)
	}
	do := func(cell *Val, s Sort) {
		x, ok := A.writes[cell]
		if !ok {
			x = *cell
		}
		y, ok := B.writes[cell]
		if !ok {
			y = *cell
		}
		if sameVal(x, y) {
			p.setCell(cell, x, s)
			return
		}
		p.setCell(cell, merge(x, y, s, nil), s)
	}
	for _, cell := range A.order {
		s := A.sorts[cell]
		if s >= SOther {
			if s2, ok := B.sorts[cell]; ok && s2 < s {
				s = s2
			}
		}
		do(cell, s)
	}
	for _, cell := range B.order {
		if _, ok := A.writes[cell]; !ok {
			do(cell, B.sorts[cell])
		}
	}
	p.w.merges++
	if A.ret {
		if sameVal(A.res, B.res) {
			fr.res = A.res
		} else {
			sig := fr.fi.fn.Signature.Results()
			if ta, ok := A.res.p.(*Tup); ok {
				tb := B.res.p.(*Tup)
				out := make([]Val, len(ta.v))
				for i := range out {
					out[i] = merge(ta.v[i], tb.v[i], ti(sig.At(i).Type()).sort, nil)
				}
				fr.res = Val{p: &Tup{out}}
			} else {
				fr.res = merge(A.res, B.res, ti(sig.At(0).Type()).sort, nil)
			}
		}
		return -1, true
	}
	return j, false
}

func sameVal(a, b Val) bool {
	switch x := a.p.(type) {
	case nil:
		return b.p == nil && a.c == b.c
	case *SliceV:
		y, ok := b.p.(*SliceV)
		return ok && (x == y || *x == *y)
	case *Iface:
		y, ok := b.p.(*Iface)
		return ok && (x == y || types.Identical(x.t, y.t) && sameVal(x.v, y.v))
	case *Tup:
		y, ok := b.p.(*Tup)
		if !ok || len(x.v) != len(y.v) {
			return false
		}
		for i := range x.v {
			if !sameVal(x.v[i], y.v[i]) {
				return false
			}
		}
		return true
	case *SymStr:
		y, ok := b.p.(*SymStr)
		return ok && x == y
	case *Agg:
		y, ok := b.p.(*Agg)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		ex, ey := x.els(), y.els()
		for i := range ex {
			if !sameVal(ex[i], ey[i]) {
				return false
			}
		}
		return true
	case *Aff:
		y, ok := b.p.(*Aff)
		return ok && x == y
	}
	return a.p == b.p && a.c == b.c
}

func (p *Path) mergeVal(c *Term, x, y Val, s Sort) (Val, bool) {
	if sameVal(x, y) {
		return x, true
	}
	if s >= SOther {
		// infer the sort from a symbolic side
		if t, ok := x.p.(*Term); ok {
			s = t.sort
		} else if t, ok := y.p.(*Term); ok {
			s = t.sort
		} else {
			if a, ok := x.p.(*Agg); ok {
				if b, ok := y.p.(*Agg); ok {
					ea, eb := a.els(), b.els()
					n := &Agg{e: make([]Val, len(ea)), n: a.n, et: a.et, st: a.st}
					for i := range ea {
						v, ok := p.mergeVal(c, ea[i], eb[i], a.sortOf(i))
						if !ok {
							return Val{}, false
						}
						n.e[i] = v
					}
					return Val{p: n}, true
				}
			}
			return Val{}, false
		}
	}
	for _, v := range []Val{x, y} {
		switch v.p.(type) {
		case nil, *Term:
		default:
			return Val{}, false
		}
	}
	return fromTerm(p.tb.Ite(c, p.toTerm(x, s), p.toTerm(y, s))), true
}

var _ = time.Now
