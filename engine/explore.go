package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var loadMu sync.Mutex

type item struct {
	h      *Harness
	prefix []int64
	model  *Model
	nrv    realVars
}

type Harness struct {
	name                              string
	fn                                *ssa.Function
	paths, assumed, incompl, branches, long int
	asserts                           map[string]int
	reach                             map[string]int
	ends                              map[string]int
	why                               map[string]int
	viol                              map[string]*violRec
	known                             map[string][]uint64
	samples                           []sample
	steps                             int64
	merges                            int
	done                              bool
	pending                           int
	unknown                           map[string]int
	started                           time.Time
	wall                              time.Duration
}

type violRec struct {
	label, msg, at string
	cands          [][]uint64
	confirmed      int
	confirmedVals  []uint64
	tried          int
}

type sample struct {
	vals []uint64
	obs  []string
	pan  bool
}

type Explorer struct {
	prog         *ssa.Program
	mu           sync.Mutex
	cond         *sync.Cond
	queue        []item
	active       int
	deadline     time.Time
	hardTO       time.Duration
	softMerge    bool
	maxConc      int
	selfCheck    bool
	thorough     bool
	known        map[string]bool
	errStringT   *types.Pointer
	wrapErrT     *types.Pointer
	errIface     *types.Interface
	stop         bool
	harnesses    []*Harness
	cov          map[*ssa.Function]int64
	notes        map[string]int
	maxSteps     int64
	timedOut     bool
	replayer     *Replayer
	stopOnViol   bool
	droppedItems int
}

type Worker struct {
	id      int
	ex      *Explorer
	tb      *TB
	solver  *Solver
	globs   map[int]*Val
	inited  map[*ssa.Package]int // 1 running, 2 done, 3 failed, 4 not allowed
	merges  int
	covered map[*fnInfo]bool
	affInts map[*Term]*Aff
	initing int
	h       *Harness
}

func (ex *Explorer) expired() bool { return time.Now().After(ex.deadline) }

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.notes[s]++
	ex.mu.Unlock()
}

func (ex *Explorer) push(p *Path, prefix []int64, m *Model) {
	if p.w.initing > 0 {
		panic("fork during init")
	}
	ex.mu.Lock()
	h := p.w.h
	h.branches++
	h.pending++
	ex.queue = append(ex.queue, item{h: h, prefix: prefix, model: m})
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) assertSeen(p *Path, label string) {
	ex.mu.Lock()
	p.w.h.asserts[label]++
	ex.mu.Unlock()
}

func (ex *Explorer) noteUnknown(p *Path, label string) {
	ex.mu.Lock()
	p.w.h.unknown[label]++
	ex.mu.Unlock()
}

func (p *Path) values(m *Model) []uint64 {
	out := make([]uint64, len(p.nds))
	for i, n := range p.nds {
		switch n.kind {
		case "const":
			out[i] = 0
		case "lin":
			f := 0.0
			if q := m.rl[fmt.Sprintf("r%d", n.rv)]; q != nil {
				f, _ = q.Float64()
			}
			out[i] = b64(f)
		default:
			out[i] = m.Eval(n.t)
		}
	}
	return out
}

// violation records a candidate; it is replayed against the compiled code before
// it counts.
func (ex *Explorer) violation(p *Path, label, at string, m *Model) {
	if at == "" {
		at = p.ctxString(p.cur)
	}
	vals := p.values(m)
	ex.mu.Lock()
	h := p.w.h
	v := h.viol[label]
	if v == nil {
		v = &violRec{label: label, at: at}
		h.viol[label] = v
	}
	try := v.confirmed == 0 && v.tried < 6
	if try {
		v.tried++
		v.cands = append(v.cands, vals)
	}
	ex.mu.Unlock()
	if try && ex.replayer != nil {
		r := ex.replayer.runFor(h.name, label, vals, p.sched != nil && len(p.sched.gs) > 1)
		debugf("candidate %s %s at %s vals=%v -> %s", h.name, label, at, vals, r.summary())
		if r.violates(label) {
			ex.mu.Lock()
			v.confirmed++
			v.confirmedVals = vals
			v.msg = r.summary()
			if ex.stopOnViol {
				ex.stop = true
			}
			ex.mu.Unlock()
			ex.cond.Broadcast()
		}
	}
}

// longPath runs the inputs of a path that exceeds the bound natively; true asks for the usual report.
func (ex *Explorer) longPath(p *Path, vals []uint64, tp *targetPanic) bool {
	r := ex.replayer.runFor(p.w.h.name, "no-panic", vals, false)
	debugf("long path at %s vals=%v -> %s", tp.at, vals, r.summary())
	return r.violates("no-panic") || !strings.Contains(r.out, "DONE")
}

func (w *Worker) cover(fi *fnInfo) {
	if w.covered[fi] {
		return
	}
	w.covered[fi] = true
	w.ex.mu.Lock()
	n := int64(0)
	for i := range fi.blocks {
		n += int64(len(fi.blocks[i].ins))
	}
	w.ex.cov[fi.fn] = n
	w.ex.mu.Unlock()
}

func (w *Worker) glob(i int) *Val {
	if v, ok := w.globs[i]; ok {
		return v
	}
	fnTabMu.RLock()
	g := globArr[i]
	fnTabMu.RUnlock()
	if g.Pkg != nil {
		st := w.inited[g.Pkg]
		if st == 0 || st == 4 {
			if !zeroGlobOK(g) {
				panic(unsupported("global " + g.String() + " of uninitialised package"))
			}
		}
	}
	c := new(Val)
	*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globs[i] = c
	return c
}

func zeroGlobOK(g *ssa.Global) bool {
	switch g.String() {
	case "internal/cpu.X86", "io.Discard", "os.Stdout", "os.Stderr":
		return true
	}
	return strings.HasSuffix(g.Name(), "init$guard")
}

var initAllow = map[string]bool{
	"errors": false, "io": true, "bytes": true, "strings": true, "sort": true, "slices": true, "math": true, "math/bits": true,
	"encoding/binary": true, "bufio": true, "unicode/utf8": true, "image/color": true, "image": true, "cmp": true, "iter": true,
	"maps": true, "io/fs": false, "image/color/palette": false, "math/cmplx": true,
}

func (w *Worker) initPkg(p *Path, pkg *ssa.Package) {
	if w.inited[pkg] != 0 {
		return
	}
	path := pkg.Pkg.Path()
	if !initAllow[path] && !strings.HasPrefix(path, modPath) {
		w.inited[pkg] = 4
		return
	}
	if path == modPath || strings.HasPrefix(path, modPath+"/examples") || strings.HasPrefix(path, modPath+"/tools") {
		w.inited[pkg] = 4
		return
	}
	w.inited[pkg] = 1
	f := pkg.Func("init")
	if f == nil {
		w.inited[pkg] = 2
		return
	}
	fi := &fnInfo{fn: f, name: f.String()}
	compileBody(fi)
	fi.count = false
	depth, cur := p.depth, p.cur
	defer func() {
		if r := recover(); r != nil {
			p.depth, p.cur = depth, cur
			w.inited[pkg] = 3
			switch u := r.(type) {
			case unsupErr:
				w.ex.note("initialisation of package " + path + " is partial: " + u.msg)
			case *targetPanic:
				w.ex.note("initialisation of package " + path + " panics: " + u.msg)
			default:
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "INIT CRASH in", path, r)
				}
				w.ex.note(fmt.Sprint("initialisation of package ", path, " is partial: ", r))
			}
		}
	}()
	p.call(fi, nil, nil)
	w.inited[pkg] = 2
}

func (ex *Explorer) newWorker(id int) *Worker {
	w := &Worker{id: id, ex: ex, covered: map[*fnInfo]bool{}, affInts: map[*Term]*Aff{}}
	w.tb = NewTB()
	w.solver = NewSolver("z3-new", 3000)
	if f := os.Getenv("VERIF_SMTLOG"); f != "" {
		fh, _ := os.Create(fmt.Sprintf("%s.%d", f, id))
		w.solver.logf = fh
	}
	return w
}

func (w *Worker) initGlobals(h *Harness) {
	if w.globs == nil {
		w.globs = map[int]*Val{}
		w.inited = map[*ssa.Package]int{}
	}
	p := w.newPath(item{h: h, model: NewModel()})
	p.maxStep = 2_000_000_000
	w.initing++
	defer func() {
		w.initing--
		if r := recover(); r != nil {
			if u, ok := r.(unsupErr); ok {
				w.ex.note("package initialisation: " + u.msg)
				debugf("init: %s", u.msg)
				return
			}
			if u, ok := r.(*targetPanic); ok {
				w.ex.note("package initialisation panics: " + u.msg)
				return
			}
			fmt.Fprintln(os.Stderr, "INIT CRASH at", p.ctxString(p.cur))
			panic(r)
		}
	}()
	w.initPkg(p, h.fn.Pkg)
}

func (w *Worker) newPath(it item) *Path {
	p := &Path{w: w, tb: w.tb, known: map[*Term]bool{}, prefix: it.prefix, maxStep: w.ex.maxSteps, reach: map[string]bool{}, cfg: map[string]int{}}
	p.model = it.model.clone()
	p.harness = it.h.name
	p.initSched()
	return p
}

func (ex *Explorer) run(nw int) {
	ex.cond = sync.NewCond(&ex.mu)
	for i := len(ex.harnesses) - 1; i >= 0; i-- {
		h := ex.harnesses[i]
		h.pending = 1
		ex.queue = append(ex.queue, item{h: h, model: NewModel()})
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ex.work(i)
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) work(id int) {
	w := ex.newWorker(id)
	defer func() { w.solver.Close() }()
	ex.mu.Lock()
	for {
		for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
			ex.cond.Wait()
		}
		if ex.stop || len(ex.queue) == 0 {
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		if ex.expired() {
			ex.timedOut = true
			ex.droppedItems += len(ex.queue)
			for _, it := range ex.queue {
				it.h.ends["not explored (time budget)"]++
			}
			ex.queue = nil
			ex.mu.Unlock()
			ex.cond.Broadcast()
			return
		}
		it := ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.active++
		if it.h.started.IsZero() {
			it.h.started = time.Now()
		}
		ex.mu.Unlock()
		w.runItem(it)
		ex.mu.Lock()
		ex.active--
		it.h.pending--
		if it.h.pending == 0 {
			it.h.wall = time.Since(it.h.started)
			debugf("harness %s done: %d paths %v %v", it.h.name, it.h.paths, it.h.wall, it.h.ends)
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
		}
	}
}

func (w *Worker) runItem(it item) {
	if w.h == nil || w.h.fn.Pkg != it.h.fn.Pkg || w.globs == nil {
		w.h = it.h
		w.initGlobals(it.h)
	}
	w.h = it.h
	if w.tb.nextID > 3_000_000 {
		w.tb = NewTB()
		w.solver.restart()
		w.affInts = map[*Term]*Aff{}
		w.globs = nil
		w.initGlobals(it.h)
	}
	for tries := 0; ; tries++ {
		next := w.runPath(it, tries)
		if next == nil {
			return
		}
		it = *next
	}
}

// runPath executes one path; a non-nil result asks for a re-execution with a
// different prefix (a failed merge).
func (w *Worker) runPath(it item, tries int) (again *item) {
	p := w.newPath(it)
	ex := w.ex
	end := ""
	var tp *targetPanic
	m0 := w.merges
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				end = x.why
				if end == "" {
					end = "end"
				}
			case *targetPanic:
				tp = x
			case mergeAbort:
				if cb := p.msites[x.dec]; cb != nil {
					n, _ := mergeFail.get(cb)
					mergeFail.put(cb, n+1)
				}
				debugf("merge abort (%s) at %s", x.why, p.ctxString(p.cur))
				again = &item{h: it.h, prefix: append(append([]int64(nil), p.decs[:x.dec]...), dNoMerge), model: p.model}
			case unsupErr:
				end = "unsupported: " + x.msg
				if p.cur != nil {
					end += " at " + p.ctxString(p.cur)
				}
			case runtime.Error:
				buf := make([]byte, 8192)
				buf = buf[:runtime.Stack(buf, false)]
				debugf("engine error %v in %s\n%s", x, p.ctxString(p.cur), buf)
				end = "engine error: " + x.Error() + " at " + p.ctxString(p.cur)
			default:
				end = fmt.Sprintf("engine error: %v at %s", r, p.ctxString(p.cur))
				debugf("%s", end)
			}
		}()
		p.call(getFn(it.h.fn), nil, nil)
	}()
	p.killAll()
	p.mdepth = 0
	p.loose = 0
	if tp != nil && p.cfg["longpaths"] > 0 && strings.HasPrefix(tp.msg, "step limit") && !p.replaying() {
		// beyond the bound on the instructions of a path: only whether it ends is decided, natively
		vals := p.values(p.model)
		if ex.replayer != nil && vals != nil && !ex.longPath(p, vals, tp) {
			tp = nil
			end = "long"
		}
	}
	if tp != nil {
		label := "no-panic"
		if !p.replaying() {
			ex.violationPanic(p, label, tp)
		}
		end = "panic: " + tp.msg
		debugf("path panic %s at %s", tp.msg, tp.at)
	}
	p.rollback(0)
	if again != nil {
		return again
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	h := it.h
	h.steps += p.steps
	h.merges += w.merges - m0
	if p.replaying() && end != "deadline" {
		end = "engine error: path ended inside its prefix (" + end + ")"
	}
	for r := range p.reach {
		h.reach[r]++
	}
	for _, s := range p.why {
		h.why[s]++
	}
	if end == "" {
		h.paths++
	} else if end == "assume" {
		h.assumed++
	} else if end == "long" {
		h.long++
	} else {
		h.ends[end]++
		if end == "deadline" {
			ex.timedOut = true
		}
	}
	h.incompl += p.incompl
	if len(p.known0) > 0 {
		for _, k := range p.known0 {
			if h.known[k] == nil {
				h.known[k] = p.values(p.model)
				if h.known[k] == nil {
					h.known[k] = []uint64{}
				}
			}
		}
	}
	if end == "" && (len(h.samples) < 4 || len(h.samples) < 12 && h.paths%17 == 0) {
		s := sample{vals: p.values(p.model)}
		ok := true
		for _, o := range p.obs {
			if _, isAff := o.v.p.(*Aff); isAff {
				ok = false
				break
			}
			s.obs = append(s.obs, fmt.Sprintf("OBS %s %d", o.label, p.model.Eval(p.toTerm(o.v, 64))))
		}
		if ok {
			h.samples = append(h.samples, s)
		}
	}
	return nil
}

func (ex *Explorer) violationPanic(p *Path, label string, tp *targetPanic) {
	// the model satisfies the path condition: it is the witness
	ex.violation(p, label, tp.msg+" @ "+tp.at, p.model)
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
