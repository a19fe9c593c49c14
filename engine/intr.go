package main

import (
	"fmt"
	"go/types"
	"hash/crc32"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrFn = func(p *Path, fr *Frame, a []Val) Val

const modPath = "github.com/kpfaulkner/jxl-go"
const rtPath = modPath + "/zzverif/rt"

func isTarget(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil {
		return false
	}
	path := pk.Pkg.Path()
	return strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, modPath+"/zzverif") && !strings.Contains(f.Name(), "VH_") && !harnessFile(f)
}

func harnessFile(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	n := f.Prog.Fset.Position(f.Pos()).Filename
	return strings.Contains(n, "zzverif")
}

var intrTab = map[string]intrFn{}

func lookupIntrinsic(f *ssa.Function) intrFn {
	n := f.String()
	if o := f.Origin(); o != nil {
		n = o.String()
	}
	if i, ok := intrTab[n]; ok {
		return i
	}
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil {
		return nil
	}
	path := pk.Pkg.Path()
	if f.Name() == "init" && f.Parent() == nil && f.Signature.Recv() == nil {
		if f.Synthetic != "" {
			return func(p *Path, fr *Frame, a []Val) Val {
				p.w.initPkg(p, f.Pkg)
				return Val{}
			}
		}
	}
	switch path {
	case "github.com/sirupsen/logrus":
		if strings.HasPrefix(f.Name(), "Fatal") || strings.HasPrefix(f.Name(), "Panic") {
			return func(p *Path, fr *Frame, a []Val) Val {
				p.tpanic("log." + f.Name() + " called")
				return Val{}
			}
		}
		if f.Name() == "GetLevel" {
			return func(p *Path, fr *Frame, a []Val) Val { return Val{c: 4} } // InfoLevel
		}
		return zeroIntr(f)
	case "log", "os", "time", "runtime/pprof", "runtime/debug", "github.com/pkg/profile":
		if path == "log" && strings.HasPrefix(f.Name(), "Fatal") {
			return func(p *Path, fr *Frame, a []Val) Val { p.tpanic("log." + f.Name()); return Val{} }
		}
		return zeroIntr(f)
	case "runtime":
		switch f.Name() {
		case "GOMAXPROCS", "NumCPU":
			return func(p *Path, fr *Frame, a []Val) Val {
				if n := p.cfg["procs"]; n > 0 {
					return intVal(n)
				}
				return intVal(4)
			}
		case "NumGoroutine":
			return func(p *Path, fr *Frame, a []Val) Val { return intVal(1) }
		}
		return zeroIntr(f)
	}
	return nil
}

func zeroIntr(f *ssa.Function) intrFn {
	z := f.Signature
	return func(p *Path, fr *Frame, a []Val) Val { return zeroResults(z) }
}

func concF(name string, f func(x float64) float64) {
	intrTab["math."+name] = func(p *Path, fr *Frame, a []Val) Val {
		if a[0].p != nil {
			if aff, ok := a[0].p.(*Aff); ok && len(aff.vs) == 0 && aff.err == 0 {
				return Val{c: b64(f(aff.c))}
			}
			panic(unsupported("math." + name + " of a symbolic value"))
		}
		return Val{c: b64(f(f64(a[0].c)))}
	}
}

func (p *Path) iteTerm(c *Term, x, y Val, s Sort) Val {
	return fromTerm(p.tb.Ite(c, p.toTerm(x, s), p.toTerm(y, s)))
}

func errVal(p *Path, msg string) Val {
	t := p.w.ex.errStringT
	cell := new(Val)
	*cell = zero(t.Elem())
	cell.p.(*Agg).els()[0] = strVal(msg)
	return Val{p: &Iface{t: t, v: Val{p: cell}}}
}

// sprintf formats when every operand is concrete; messages with symbolic
// operands are left as their format.
func (p *Path) sprintf(a []Val) string {
	s, _ := goStr(a[0])
	var args []any
	if len(a) > 1 && a[1].p != nil {
		if l := a[1].slice(); l != nil {
			for _, v := range l.a.els()[l.off : l.off+l.len] {
				i, ok := v.p.(*Iface)
				if !ok || i.v.p != nil && ti(i.t).kind != kString {
					return s
				}
				switch ti(i.t).kind {
				case kInt, kBool, kFloat:
				case kString:
					if _, ok := goStr(i.v); !ok {
						return s
					}
				default:
					return s
				}
				args = append(args, p.hostArg(i))
			}
		}
	}
	return fmt.Sprintf(s, args...)
}

func init() {
	T := intrTab
	// ----- math -----
	concF("Sin", math.Sin)
	concF("Cos", math.Cos)
	concF("Tan", math.Tan)
	concF("Exp", math.Exp)
	concF("Exp2", math.Exp2)
	concF("Log", math.Log)
	concF("Log2", math.Log2)
	concF("Log10", math.Log10)
	concF("Log1p", math.Log1p)
	concF("Expm1", math.Expm1)
	concF("Cbrt", math.Cbrt)
	concF("Atan", math.Atan)
	concF("Erf", math.Erf)
	two := func(n string, f func(x, y float64) float64) {
		T["math."+n] = func(p *Path, fr *Frame, a []Val) Val {
			if a[0].p != nil || a[1].p != nil {
				panic(unsupported("math." + n + " of a symbolic value"))
			}
			return Val{c: b64(f(f64(a[0].c), f64(a[1].c)))}
		}
	}
	two("Pow", math.Pow)
	pow := T["math.Pow"]
	T["math.Pow"] = func(p *Path, fr *Frame, a []Val) Val {
		x, ok1 := a[0].p.(*Term)
		y, ok2 := a[1].p.(*Term)
		if (ok1 || a[0].p == nil) && (ok2 || a[1].p == nil) && (ok1 || ok2) {
			// uninterpreted: equal arguments give equal results, nothing else is assumed
			if x == nil {
				x = p.toTerm(a[0], SF64)
			}
			if y == nil {
				y = p.toTerm(a[1], SF64)
			}
			k := [2]*Term{x, y}
			if v, ok := p.pows[k]; ok {
				return Val{p: v}
			}
			p.ufs++
			v := p.tb.FFromBits(p.tb.Var(fmt.Sprintf("pow%d_u64", p.ufs), 64), SF64)
			if p.mdepth == 0 {
				if p.pows == nil {
					p.pows = map[[2]*Term]*Term{}
				}
				p.pows[k] = v
			}
			return Val{p: v}
		}
		return pow(p, fr, a)
	}
	two("Hypot", math.Hypot)
	two("Atan2", math.Atan2)
	two("Mod", math.Mod)
	un := func(n string, op Op, k uint64, f func(float64) float64) {
		T["math."+n] = func(p *Path, fr *Frame, a []Val) Val {
			if a[0].p == nil {
				return Val{c: b64(f(f64(a[0].c)))}
			}
			if aff, ok := a[0].p.(*Aff); ok && n == "Abs" {
				return Val{p: p.affAbs(aff, SF64)}
			}
			return fromTerm(p.tb.FUn(op, k, p.toTerm(a[0], SF64)))
		}
	}
	un("Abs", OFAbs, 0, math.Abs)
	un("Sqrt", OFSqrt, 0, math.Sqrt)
	un("sqrt", OFSqrt, 0, math.Sqrt)
	un("Trunc", OFRti, 0, math.Trunc)
	un("Floor", OFRti, 1, math.Floor)
	un("Ceil", OFRti, 2, math.Ceil)
	un("RoundToEven", OFRti, 3, math.RoundToEven)
	un("Round", OFRti, 4, math.Round)
	mm := func(n string, isMin bool) {
		T["math."+n] = func(p *Path, fr *Frame, a []Val) Val {
			if a[0].p != nil {
				if t, ok := a[0].p.(*Term); ok {
					if p.branch(p.tb.FIsNaN(t)) {
						return a[0]
					}
				}
			}
			if a[1].p != nil {
				if t, ok := a[1].p.(*Term); ok {
					if p.branch(p.tb.FIsNaN(t)) {
						return a[1]
					}
				}
			}
			return p.minmax(isMin, a[0], a[1], tinfo{kFloat, SF64, false})
		}
	}
	mm("Min", true)
	mm("Max", false)
	T["math.Float32bits"] = func(p *Path, fr *Frame, a []Val) Val {
		if a[0].p == nil {
			return a[0]
		}
		if x, ok := a[0].p.(*Aff); ok {
			return Val{p: &affBits{a: x, w: SF32}}
		}
		t := p.toTerm(a[0], SF32)
		if t.op == OFFromBits {
			return fromTerm(t.args[0])
		}
		// fresh bit-vector constrained to denote the same float
		p.ufs++
		v := p.tb.Var(fmt.Sprintf("fb%d_u32", p.ufs), 32)
		p.assume(p.tb.Eq(p.tb.FFromBits(v, SF32), t))
		return Val{p: v}
	}
	T["math.Float64bits"] = func(p *Path, fr *Frame, a []Val) Val {
		if a[0].p == nil {
			return a[0]
		}
		if x, ok := a[0].p.(*Aff); ok {
			return Val{p: &affBits{a: x, w: SF64}}
		}
		t := p.toTerm(a[0], SF64)
		if t.op == OFFromBits {
			return fromTerm(t.args[0])
		}
		p.ufs++
		v := p.tb.Var(fmt.Sprintf("fb%d_u64", p.ufs), 64)
		p.assume(p.tb.Eq(p.tb.FFromBits(v, SF64), t))
		return Val{p: v}
	}
	T["math.Float32frombits"] = func(p *Path, fr *Frame, a []Val) Val {
		if b, ok := a[0].p.(*affBits); ok {
			return p.fromAffBits(b)
		}
		return fromTerm(p.tb.FFromBits(p.toTerm(a[0], 32), SF32))
	}
	T["math.Float64frombits"] = func(p *Path, fr *Frame, a []Val) Val {
		if b, ok := a[0].p.(*affBits); ok {
			return p.fromAffBits(b)
		}
		return fromTerm(p.tb.FFromBits(p.toTerm(a[0], 64), SF64))
	}
	T["math.IsNaN"] = func(p *Path, fr *Frame, a []Val) Val {
		if _, ok := a[0].p.(*Aff); ok {
			return boolVal(false)
		}
		return fromTerm(p.tb.FIsNaN(p.toTerm(a[0], SF64)))
	}
	T["math.IsInf"] = func(p *Path, fr *Frame, a []Val) Val {
		if _, ok := a[0].p.(*Aff); ok {
			return boolVal(false)
		}
		s := int(int64(a[1].c))
		t := p.toTerm(a[0], SF64)
		pi := p.tb.FCmp(OFEq, t, p.tb.FPc(SF64, b64(math.Inf(1))))
		ni := p.tb.FCmp(OFEq, t, p.tb.FPc(SF64, b64(math.Inf(-1))))
		switch {
		case s > 0:
			return fromTerm(pi)
		case s < 0:
			return fromTerm(ni)
		}
		return fromTerm(p.tb.Or(pi, ni))
	}
	// ----- math/bits -----
	for _, w := range []int{0, 8, 16, 32, 64} {
		sfx := fmt.Sprint(w)
		ww := Sort(w)
		if w == 0 {
			sfx = ""
			ww = 64
		}
		lenF := func(p *Path, x Val) Val {
			if x.p == nil {
				return intVal(bits.Len64(x.c))
			}
			t := p.toTerm(x, ww)
			r := p.tb.BV(64, 0)
			for i := Sort(0); i < ww; i++ {
				r = p.tb.Ite(p.tb.Eq(p.tb.Extract(t, uint64(i), 1), p.tb.BV(1, 1)), p.tb.BV(64, uint64(i)+1), r)
			}
			return fromTerm(r)
		}
		T["math/bits.Len"+sfx] = func(p *Path, fr *Frame, a []Val) Val { return lenF(p, a[0]) }
		T["math/bits.LeadingZeros"+sfx] = func(p *Path, fr *Frame, a []Val) Val {
			return fromTerm(p.tb.Bin(OSub, p.tb.BV(64, uint64(ww)), p.toTerm(lenF(p, a[0]), 64)))
		}
		T["math/bits.TrailingZeros"+sfx] = func(p *Path, fr *Frame, a []Val) Val {
			if a[0].p == nil {
				if a[0].c == 0 {
					return intVal(int(ww))
				}
				return intVal(bits.TrailingZeros64(a[0].c))
			}
			t := p.toTerm(a[0], ww)
			r := p.tb.BV(64, uint64(ww))
			for i := int(ww) - 1; i >= 0; i-- {
				r = p.tb.Ite(p.tb.Eq(p.tb.Extract(t, uint64(i), 1), p.tb.BV(1, 1)), p.tb.BV(64, uint64(i)), r)
			}
			return fromTerm(r)
		}
		T["math/bits.OnesCount"+sfx] = func(p *Path, fr *Frame, a []Val) Val {
			if a[0].p == nil {
				return intVal(bits.OnesCount64(a[0].c))
			}
			t := p.toTerm(a[0], ww)
			r := p.tb.BV(64, 0)
			for i := Sort(0); i < ww; i++ {
				r = p.tb.Bin(OAdd, r, p.tb.Zext(p.tb.Extract(t, uint64(i), 1), 64))
			}
			return fromTerm(r)
		}
		if w > 0 {
			T["math/bits.Reverse"+sfx] = func(p *Path, fr *Frame, a []Val) Val {
				if a[0].p == nil {
					return Val{c: bits.Reverse64(a[0].c) >> (64 - ww)}
				}
				t := p.toTerm(a[0], ww)
				r := p.tb.Extract(t, 0, 1)
				for i := Sort(1); i < ww; i++ {
					r = p.tb.Concat(r, p.tb.Extract(t, uint64(i), 1))
				}
				return fromTerm(r)
			}
		}
	}
	// ----- errors/fmt -----
	T["fmt.Errorf"] = func(p *Path, fr *Frame, a []Val) Val {
		f, _ := goStr(a[0])
		if strings.Contains(f, "%w") && p.w.ex.wrapErrT != nil {
			var inner Val
			if s := a[1].slice(); s != nil {
				for _, v := range s.a.els()[s.off : s.off+s.len] {
					if i, ok := v.p.(*Iface); ok && p.w.ex.errIface != nil && types.Implements(i.t, p.w.ex.errIface) {
						inner = v
					}
				}
			}
			if inner.p != nil {
				cell := new(Val)
				*cell = zero(p.w.ex.wrapErrT.Elem())
				e := cell.p.(*Agg).els()
				e[0] = strVal(f)
				e[1] = inner
				return Val{p: &Iface{t: p.w.ex.wrapErrT, v: Val{p: cell}}}
			}
		}
		return errVal(p, f)
	}
	sp := func(p *Path, fr *Frame, a []Val) Val { return strVal(p.sprintf(a)) }
	T["fmt.Sprintf"] = sp
	T["fmt.Sprint"] = func(p *Path, fr *Frame, a []Val) Val { return strVal("?") }
	T["fmt.Sprintln"] = T["fmt.Sprint"]
	for _, n := range []string{"Printf", "Println", "Print", "Fprintf", "Fprintln", "Fprint"} {
		T["fmt."+n] = func(p *Path, fr *Frame, a []Val) Val {
			return Val{p: &Tup{[]Val{{}, {}}}}
		}
	}
	T["fmt.Fprintf"] = fprintf
	T["strconv.Itoa"] = func(p *Path, fr *Frame, a []Val) Val {
		if a[0].p != nil {
			a[0] = Val{c: p.concretise(a[0].term())}
		}
		return strVal(fmt.Sprint(int64(a[0].c)))
	}
	// ----- sync -----
	nop := func(p *Path, fr *Frame, a []Val) Val { return Val{} }
	lock := func(key string, write bool) intrFn {
		return func(p *Path, fr *Frame, a []Val) Val {
			if a[0].p == nil {
				p.tpanic("nil mutex")
			}
			m := p.mutex(a[0].p.(*Val))
			if len(p.sched.gs) > 1 {
				p.block(func() bool { return !m.w && (!write || m.r == 0) })
			} else if m.w || write && m.r > 0 {
				p.tpanic("all goroutines are asleep - deadlock! (self lock)")
			}
			p.acquire(m)
			if write {
				m.w = true
				p.trail = append(p.trail, undo{f: func() { m.w = false }})
			} else {
				m.r++
				p.trail = append(p.trail, undo{f: func() { m.r-- }})
			}
			return Val{}
		}
	}
	unlock := func(write bool) intrFn {
		return func(p *Path, fr *Frame, a []Val) Val {
			m := p.mutex(a[0].p.(*Val))
			p.release(m)
			if write {
				if !m.w {
					p.tpanic("sync: unlock of unlocked mutex")
				}
				m.w = false
				p.trail = append(p.trail, undo{f: func() { m.w = true }})
			} else {
				m.r--
				p.trail = append(p.trail, undo{f: func() { m.r++ }})
			}
			return Val{}
		}
	}
	T["(*sync.Mutex).Lock"] = lock("", true)
	T["(*sync.Mutex).Unlock"] = unlock(true)
	T["(*sync.RWMutex).Lock"] = lock("", true)
	T["(*sync.RWMutex).Unlock"] = unlock(true)
	T["(*sync.RWMutex).RLock"] = lock("", false)
	T["(*sync.RWMutex).RUnlock"] = unlock(false)
	T["(*sync.Once).Do"] = func(p *Path, fr *Frame, a []Val) Val {
		m := p.mutex(a[0].p.(*Val))
		if m.once {
			p.acquire(m)
			return Val{}
		}
		p.abortMerge("once")
		m.once = true
		p.callVal(a[1], nil)
		p.release(m)
		return Val{}
	}
	T["(*sync.WaitGroup).Add"] = func(p *Path, fr *Frame, a []Val) Val {
		p.abortMerge("wg")
		m := p.mutex(a[0].p.(*Val))
		m.n += int(int64(a[1].c))
		if m.n < 0 {
			p.tpanic("sync: negative WaitGroup counter")
		}
		return Val{}
	}
	T["(*sync.WaitGroup).Done"] = func(p *Path, fr *Frame, a []Val) Val {
		p.abortMerge("wg")
		m := p.mutex(a[0].p.(*Val))
		m.n--
		p.release(m)
		if m.n < 0 {
			p.tpanic("sync: negative WaitGroup counter")
		}
		return Val{}
	}
	T["(*sync.WaitGroup).Wait"] = func(p *Path, fr *Frame, a []Val) Val {
		m := p.mutex(a[0].p.(*Val))
		p.abortMerge("wg")
		p.block(func() bool { return m.n == 0 })
		p.acquire(m)
		return Val{}
	}
	T["(*sync.WaitGroup).Go"] = func(p *Path, fr *Frame, a []Val) Val {
		m := p.mutex(a[0].p.(*Val))
		m.n++
		f := a[1]
		p.spawn(Val{p: &NativeFn{"wg.Go", func(p *Path, _ []Val) Val {
			p.callVal(f, nil)
			m.n--
			p.release(m)
			return Val{}
		}}}, nil)
		return Val{}
	}
	T["(*sync.Pool).Get"] = poolGet
	T["(*sync.Pool).Put"] = poolPut
	at := func(n string, w Sort) {
		tn := tinfo{kInt, w, true}
		defer func() {
			// atomic operations synchronise and do not race with each other
			for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
				name := "sync/atomic." + op + n
				f := T[name]
				T[name] = func(p *Path, fr *Frame, a []Val) Val {
					if p.race == nil {
						return f(p, fr, a)
					}
					r := p.race
					key := a[0].p
					p.acquire(key)
					p.race = nil
					v := func() Val {
						defer func() { p.race = r }()
						return f(p, fr, a)
					}()
					p.release(key)
					return v
				}
			}
		}()
		T["sync/atomic.Add"+n] = func(p *Path, fr *Frame, a []Val) Val {
			v := p.load(a[0], tn)
			r := fromTerm(p.tb.Bin(OAdd, p.toTerm(v, w), p.toTerm(a[1], w)))
			p.store(a[0], r, tn)
			return r
		}
		T["sync/atomic.Load"+n] = func(p *Path, fr *Frame, a []Val) Val { return p.load(a[0], tn) }
		T["sync/atomic.Store"+n] = func(p *Path, fr *Frame, a []Val) Val { p.store(a[0], a[1], tn); return Val{} }
		T["sync/atomic.Swap"+n] = func(p *Path, fr *Frame, a []Val) Val {
			v := p.load(a[0], tn)
			p.store(a[0], a[1], tn)
			return v
		}
		T["sync/atomic.CompareAndSwap"+n] = func(p *Path, fr *Frame, a []Val) Val {
			v := p.load(a[0], tn)
			if p.branch(p.tb.Eq(p.toTerm(v, w), p.toTerm(a[1], w))) {
				p.store(a[0], a[2], tn)
				return boolVal(true)
			}
			return boolVal(false)
		}
	}
	at("Int32", 32)
	at("Int64", 64)
	at("Uint32", 32)
	at("Uint64", 64)
	// ----- strings / bytes -----
	T["(*strings.Builder).String"] = func(p *Path, fr *Frame, a []Val) Val {
		e := a[0].p.(*Val).p.(*Agg).els()
		s := e[1].slice()
		if s == nil {
			return strVal("")
		}
		return mkStr(s.a.els()[s.off : s.off+s.len])
	}
	T["(*strings.Builder).copyCheck"] = nop
	T["(*strings.Builder).grow"] = nop
	T["(*strings.Builder).Grow"] = nop
	T["internal/bytealg.IndexByte"] = func(p *Path, fr *Frame, a []Val) Val {
		s := a[0].slice()
		if s == nil {
			return intVal(-1)
		}
		return p.indexByte(s.a.els()[s.off:s.off+s.len], a[1])
	}
	T["internal/bytealg.IndexByteString"] = func(p *Path, fr *Frame, a []Val) Val {
		return p.indexByte(strBytes(a[0]), a[1])
	}
	T["internal/bytealg.Equal"] = func(p *Path, fr *Frame, a []Val) Val { return p.bytesEq(a[0], a[1]) }
	T["bytes.Equal"] = func(p *Path, fr *Frame, a []Val) Val { return p.bytesEq(a[0], a[1]) }
	T["internal/bytealg.MakeNoZero"] = func(p *Path, fr *Frame, a []Val) Val {
		n := p.concInt(a[0], tinfo{kInt, 64, true})
		if n < 0 {
			p.tpanic("makeslice: len out of range")
		}
		p.checkAlloc(n, types.Typ[types.Uint8])
		c := roundupsize(n)
		return Val{p: &SliceV{a: &Agg{n: c, et: types.Typ[types.Uint8]}, len: n, cap: n}}
	}
	T["strings.Split"] = func(p *Path, fr *Frame, a []Val) Val {
		s, ok1 := goStr(a[0])
		q, ok2 := goStr(a[1])
		if !ok1 || !ok2 {
			panic(unsupported("strings.Split symbolic"))
		}
		var out []Val
		for _, x := range strings.Split(s, q) {
			out = append(out, strVal(x))
		}
		v := mkSlice(out)
		v.slice().a.et = types.Typ[types.String]
		return v
	}
	// ----- checksums / compression -----
	T["hash/crc32.ChecksumIEEE"] = crcIntr
	T["internal/reflectlite.Swapper"] = func(p *Path, fr *Frame, a []Val) Val {
		s := a[0].p.(*Iface).v.slice()
		return Val{p: &NativeFn{"swap", func(p *Path, b []Val) Val {
			i := p.concInt(b[0], tinfo{kInt, 64, true})
			j := p.concInt(b[1], tinfo{kInt, 64, true})
			e := s.a.els()
			x, y := copyVal(e[s.off+i]), copyVal(e[s.off+j])
			srt := s.a.sortOf(0)
			p.storeInto(&e[s.off+i], y, srt)
			p.storeInto(&e[s.off+j], x, srt)
			return Val{}
		}}}
	}
	T["internal/reflectlite.ValueOf"] = func(p *Path, fr *Frame, a []Val) Val {
		return Val{p: &Agg{e: []Val{a[0]}}}
	}
	T["(internal/reflectlite.Value).Len"] = func(p *Path, fr *Frame, a []Val) Val {
		s := a[0].p.(*Agg).e[0].p.(*Iface).v.slice()
		if s == nil {
			return Val{}
		}
		return intVal(s.len)
	}
	T["runtime.KeepAlive"] = nop
	T["internal/race.Enable"] = nop
	T["errors.Is"] = errorsIs
	T["errors.As"] = func(p *Path, fr *Frame, a []Val) Val { panic(unsupported("errors.As")) }
	T["encoding/binary.Write"] = binWrite
	T["os.Exit"] = func(p *Path, fr *Frame, a []Val) Val { p.tpanic("os.Exit"); return Val{} }
}

func errorsIs(p *Path, fr *Frame, a []Val) Val {
	x, y := a[0], a[1]
	for n := 0; n < 10; n++ {
		xi, _ := x.p.(*Iface)
		if xi == nil {
			return boolVal(y.p == nil)
		}
		if yi, ok := y.p.(*Iface); ok && types.Identical(xi.t, yi.t) && types.Comparable(xi.t) {
			if t := p.eq(xi.v, yi.v, xi.t); t.isConst() && t.k == 1 {
				return boolVal(true)
			}
		}
		if p.w.ex.wrapErrT != nil && types.Identical(xi.t, p.w.ex.wrapErrT) {
			x = xi.v.p.(*Val).p.(*Agg).els()[1]
			continue
		}
		return boolVal(false)
	}
	return boolVal(false)
}

func (p *Path) indexByte(b []Val, c Val) Val {
	// first match, as an ite chain
	r := p.tb.BV(64, ^uint64(0))
	ct := p.toTerm(c, 8)
	for i := len(b) - 1; i >= 0; i-- {
		r = p.tb.Ite(p.tb.Eq(p.toTerm(b[i], 8), ct), p.tb.BV(64, uint64(i)), r)
	}
	return fromTerm(r)
}

func (p *Path) bytesEq(x, y Val) Val {
	var a, b []Val
	if s := x.slice(); s != nil {
		a = s.a.els()[s.off : s.off+s.len]
	}
	if s := y.slice(); s != nil {
		b = s.a.els()[s.off : s.off+s.len]
	}
	if len(a) != len(b) {
		return boolVal(false)
	}
	r := p.tb.True
	for i := range a {
		r = p.tb.And(r, p.tb.Eq(p.toTerm(a[i], 8), p.toTerm(b[i], 8)))
	}
	return fromTerm(r)
}

// crc32: concrete bytes are hashed; symbolic bytes run the bitwise definition.
func crcIntr(p *Path, fr *Frame, a []Val) Val {
	s := a[0].slice()
	if s == nil {
		return Val{}
	}
	el := s.a.els()[s.off : s.off+s.len]
	conc := true
	bs := make([]byte, len(el))
	for i, v := range el {
		if v.p != nil {
			conc = false
			break
		}
		bs[i] = byte(v.c)
	}
	if conc {
		return Val{c: uint64(crc32.ChecksumIEEE(bs))}
	}
	tb := p.tb
	crc := tb.BV(32, 0xffffffff)
	for _, v := range el {
		crc = tb.Bin(OXor, crc, tb.Zext(p.toTerm(v, 8), 32))
		for k := 0; k < 8; k++ {
			bit := tb.Eq(tb.Extract(crc, 0, 1), tb.BV(1, 1))
			sh := tb.Bin(OLshr, crc, tb.BV(32, 1))
			crc = tb.Ite(bit, tb.Bin(OXor, sh, tb.BV(32, 0xedb88320)), sh)
		}
	}
	return fromTerm(tb.NotBV(crc))
}

type mutexState struct {
	w    bool
	r    int
	n    int
	once bool
}

func (p *Path) mutex(c *Val) *mutexState {
	if p.mtx == nil {
		p.mtx = map[*Val]*mutexState{}
	}
	m := p.mtx[c]
	if m == nil {
		m = &mutexState{}
		p.mtx[c] = m
	}
	return m
}

type poolState struct {
	priv  Val
	hasP  bool
	stack []Val
}

func (p *Path) pool(c *Val) *poolState {
	if p.pools == nil {
		p.pools = map[*Val]*poolState{}
	}
	s := p.pools[c]
	if s == nil {
		s = &poolState{}
		p.pools[c] = s
	}
	return s
}

func poolGet(p *Path, fr *Frame, a []Val) Val {
	p.abortMerge("pool")
	s := p.pool(a[0].p.(*Val))
	p.acquire(s)
	if p.cfg["pooladv"] > 0 && (s.hasP || len(s.stack) > 0) {
		// the pool may drop items at any time
		if p.choose(2) == 1 {
			s.hasP, s.stack = false, nil
		}
	}
	if s.hasP {
		s.hasP = false
		return s.priv
	}
	if n := len(s.stack); n > 0 {
		v := s.stack[n-1]
		s.stack = s.stack[:n-1]
		return v
	}
	ag := a[0].p.(*Val).p.(*Agg).els()
	nf := ag[len(ag)-1] // New is the last field of sync.Pool
	if nf.p == nil {
		return Val{}
	}
	return p.callVal(nf, nil)
}

func poolPut(p *Path, fr *Frame, a []Val) Val {
	p.abortMerge("pool")
	if a[1].p == nil {
		return Val{}
	}
	s := p.pool(a[0].p.(*Val))
	p.release(s)
	if !s.hasP {
		s.hasP, s.priv = true, a[1]
	} else {
		s.stack = append(s.stack, a[1])
	}
	return Val{}
}

// writeTo calls w.Write(bytes) and returns its results.
func (p *Path) writeTo(w Val, b []Val) (Val, Val) {
	i, _ := w.p.(*Iface)
	if i == nil {
		p.tpanic("nil writer")
	}
	arg := mkSlice(b)
	arg.slice().a.et = types.Typ[types.Uint8]
	var r Val
	if nf, ok := i.v.p.(*NativeObj); ok {
		r = nf.methods["Write"](p, []Val{i.v, arg})
	} else {
		f := lookupMethodProg(p.w.ex.prog, i.t, "Write")
		r = p.call(getFn(f), []Val{i.v, arg}, nil)
	}
	t := r.p.(*Tup)
	return t.v[0], t.v[1]
}

func lookupMethodProg(prog *ssa.Program, t types.Type, name string) *ssa.Function {
	loadMu.Lock()
	defer loadMu.Unlock()
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return prog.MethodValue(ms.At(i))
		}
	}
	panic(unsupported("method " + name))
}

// fprintf formats when all operands are concrete scalars or strings.
func fprintf(p *Path, fr *Frame, a []Val) Val {
	f, _ := goStr(a[1])
	var args []any
	if s := a[2].slice(); s != nil {
		for _, v := range s.a.els()[s.off : s.off+s.len] {
			i, ok := v.p.(*Iface)
			if !ok {
				args = append(args, nil)
				continue
			}
			args = append(args, p.hostArg(i))
		}
	}
	out := fmt.Sprintf(f, args...)
	n, err := p.writeTo(a[0], strBytes(strVal(out)))
	return Val{p: &Tup{[]Val{n, err}}}
}

func (p *Path) hostArg(i *Iface) any {
	t := ti(i.t)
	switch t.kind {
	case kInt:
		v := i.v
		if v.p != nil {
			v = Val{c: p.concretise(p.toTerm(v, t.sort))}
		}
		if t.signed {
			return sx(v.c, t.sort)
		}
		return v.c
	case kString:
		s, ok := goStr(i.v)
		if ok {
			return s
		}
	case kBool:
		if i.v.p == nil {
			return i.v.c != 0
		}
	case kFloat:
		if i.v.p == nil {
			if t.sort == SF32 {
				return f32(i.v.c)
			}
			return f64(i.v.c)
		}
	}
	panic(unsupported("formatting of " + i.t.String()))
}

// binWrite models encoding/binary.Write for scalars, arrays and slices of scalars.
func binWrite(p *Path, fr *Frame, a []Val) Val {
	ord := a[1].p.(*Iface).t.String()
	big := strings.Contains(ord, "bigEndian")
	i := a[2].p.(*Iface)
	var out []Val
	var emit func(v Val, t types.Type)
	emit = func(v Val, t types.Type) {
		inf := ti(t)
		switch inf.kind {
		case kInt, kFloat, kBool:
			var b *Term
			switch {
			case inf.kind == kFloat:
				w := Sort(32)
				n := "math.Float32bits"
				if inf.sort == SF64 {
					w, n = 64, "math.Float64bits"
				}
				b = p.toTerm(intrTab[n](p, fr, []Val{v}), w)
			case inf.kind == kBool:
				b = p.tb.Ite(p.toTerm(v, SBool), p.tb.BV(8, 1), p.tb.BV(8, 0))
			default:
				b = p.toTerm(v, inf.sort)
			}
			n := int(b.sort) / 8
			for k := 0; k < n; k++ {
				q := k
				if big {
					q = n - 1 - k
				}
				out = append(out, fromTerm(p.tb.Extract(b, uint64(8*q), 8)))
			}
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if s := v.slice(); s != nil {
				for _, e := range s.a.els()[s.off : s.off+s.len] {
					emit(e, u.Elem())
				}
			}
		case *types.Array:
			for _, e := range v.agg().els() {
				emit(e, u.Elem())
			}
		case *types.Pointer:
			emit(p.load(v, ti(u.Elem())), u.Elem())
		case *types.Struct:
			for k, e := range v.agg().els() {
				emit(e, u.Field(k).Type())
			}
		default:
			panic(unsupported("binary.Write " + t.String()))
		}
	}
	emit(i.v, i.t)
	_, err := p.writeTo(a[0], out)
	return err
}
