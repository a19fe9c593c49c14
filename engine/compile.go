package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
)

type opnd struct {
	k opKind
	i int
	v Val
}

type cin struct {
	in  ssa.Instruction
	op  uint8
	dst int
	a   []opnd
	t   tinfo
	t2  tinfo
	tok token.Token
	n   int
	typ types.Type
	fn  *fnInfo // static callee
	bi  string  // builtin
}

const (
	cAlloc = iota
	cBinOp
	cUnOp
	cCall
	cChangeIface
	cChangeType
	cConvert
	cMakeIface
	cExtract
	cField
	cFieldAddr
	cIndex
	cIndexAddr
	cLookup
	cMakeChan
	cMakeClosure
	cMakeMap
	cMakeSlice
	cMapUpdate
	cNext
	cRange
	cPanic
	cReturn
	cRunDefers
	cSelect
	cSend
	cSlice
	cSliceToArr
	cStore
	cTypeAssert
	cIf
	cJump
	cDefer
	cGo
	cNop
	cLoad
	cMultiConv
)

type cblock struct {
	phis []cphi
	ins  []cin
	b    *ssa.BasicBlock
	succ []int
	pred []int
}

type cphi struct {
	dst   int
	edges []opnd
	t     tinfo
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	once     sync.Once
	blocks   []cblock
	nregs    int
	regT     []tinfo
	nparams  int
	hasDefer bool
	ipdom    []int // -1: exit
	intr     func(p *Path, fr *Frame, args []Val) Val
	hasBody  bool
	recov    int
	count    bool // a function of the code under test
}

var (
	fnTab   = map[*ssa.Function]*fnInfo{}
	fnTabMu sync.RWMutex
	globTab = map[*ssa.Global]int{}
	globArr []*ssa.Global
)

func fnEntry(f *ssa.Function) *fnInfo {
	fnTabMu.RLock()
	fi := fnTab[f]
	fnTabMu.RUnlock()
	if fi != nil {
		return fi
	}
	fnTabMu.Lock()
	defer fnTabMu.Unlock()
	if fi = fnTab[f]; fi == nil {
		fi = &fnInfo{fn: f, name: f.String()}
		fnTab[f] = fi
	}
	return fi
}

func getFn(f *ssa.Function) *fnInfo {
	fi := fnEntry(f)
	fi.once.Do(func() { compileFn(fi) })
	return fi
}

func globIdx(g *ssa.Global) int {
	fnTabMu.Lock()
	defer fnTabMu.Unlock()
	i, ok := globTab[g]
	if !ok {
		i = len(globArr)
		globTab[g] = i
		globArr = append(globArr, g)
	}
	return i
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := ti(c.Type())
	switch t.kind {
	case kBool:
		return boolVal(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{c: uint64(i) & mask(t.sort)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{c: u & mask(t.sort)}
	case kFloat:
		if t.sort == SF32 {
			f, _ := constant.Float32Val(c.Value)
			return Val{c: b32(f)}
		}
		f, _ := constant.Float64Val(c.Value)
		return Val{c: b64(f)}
	case kString:
		if c.Value.Kind() == constant.String {
			return strVal(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return strVal(string(rune(i)))
	}
	panic(unsupported("const " + c.String()))
}

func compileFn(fi *fnInfo) {
	f := fi.fn
	if in := lookupIntrinsic(f); in != nil {
		fi.intr = in
		return
	}
	compileBody(fi)
}

func compileBody(fi *fnInfo) {
	f := fi.fn
	fi.count = isTarget(f)
	if f.Blocks == nil {
		return
	}
	fi.hasBody = true
	fi.nparams = len(f.Params)
	reg := map[ssa.Value]int{}
	add := func(v ssa.Value) {
		reg[v] = len(fi.regT)
		fi.regT = append(fi.regT, ti(v.Type()))
	}
	for _, x := range f.Params {
		add(x)
	}
	for _, x := range f.FreeVars {
		add(x)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = len(fi.regT)
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: okConst}
		case *ssa.Const:
			return opnd{k: okConst, v: constVal(x)}
		case *ssa.Global:
			return opnd{k: okGlobal, i: globIdx(x)}
		case *ssa.Function:
			return opnd{k: okConst, v: Val{p: x}}
		case *ssa.Builtin:
			return opnd{k: okConst, v: Val{p: x}}
		}
		i, ok := reg[v]
		if !ok {
			panic(fmt.Sprintf("no reg for %v in %v", v, f))
		}
		return opnd{k: okReg, i: i}
	}
	fi.blocks = make([]cblock, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &fi.blocks[bi]
		cb.b = b
		for _, s := range b.Succs {
			cb.succ = append(cb.succ, s.Index)
		}
		for _, s := range b.Preds {
			cb.pred = append(cb.pred, s.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cp := cphi{dst: reg[ph], t: ti(ph.Type())}
				for _, e := range ph.Edges {
					cp.edges = append(cp.edges, op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			c := cin{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = reg[v]
				c.t = ti(v.Type())
			}
			ops := func(vs ...ssa.Value) {
				for _, v := range vs {
					c.a = append(c.a, op(v))
				}
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Alloc:
				c.op = cAlloc
				c.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.BinOp:
				c.op = cBinOp
				c.tok = x.Op
				ops(x.X, x.Y)
				c.t2 = ti(x.X.Type())
				c.typ = x.X.Type()
				if x.Op == token.SHL || x.Op == token.SHR {
					yt := ti(x.Y.Type())
					c.n = int(yt.sort)
					if yt.signed {
						c.n = -c.n
					}
				}
			case *ssa.UnOp:
				c.op = cUnOp
				c.tok = x.Op
				ops(x.X)
				c.t2 = ti(x.X.Type())
				c.typ = x.Type()
				if x.Op == token.MUL {
					c.op = cLoad
				}
				if x.CommaOk {
					c.n = 1
				}
			case *ssa.Call:
				c.op = cCall
				compileCall(&c, &x.Call, ops)
			case *ssa.Defer:
				c.op = cDefer
				fi.hasDefer = true
				compileCall(&c, &x.Call, ops)
			case *ssa.Go:
				c.op = cGo
				compileCall(&c, &x.Call, ops)
			case *ssa.ChangeInterface:
				c.op = cChangeIface
				ops(x.X)
			case *ssa.ChangeType:
				c.op = cChangeType
				ops(x.X)
			case *ssa.Convert:
				c.op = cConvert
				ops(x.X)
				c.t2 = ti(x.X.Type())
				c.typ = x.Type()
			case *ssa.MultiConvert:
				c.op = cConvert
				ops(x.X)
				c.t2 = ti(x.X.Type())
				c.typ = x.Type()
			case *ssa.MakeInterface:
				c.op = cMakeIface
				ops(x.X)
				c.typ = x.X.Type()
			case *ssa.Extract:
				c.op = cExtract
				ops(x.Tuple)
				c.n = x.Index
			case *ssa.Field:
				c.op = cField
				ops(x.X)
				c.n = x.Field
			case *ssa.FieldAddr:
				c.op = cFieldAddr
				ops(x.X)
				c.n = x.Field
			case *ssa.Index:
				c.op = cIndex
				ops(x.X, x.Index)
				c.t2 = ti(x.Index.Type())
				c.typ = x.X.Type()
			case *ssa.IndexAddr:
				c.op = cIndexAddr
				ops(x.X, x.Index)
				c.t2 = ti(x.Index.Type())
				c.typ = x.X.Type()
			case *ssa.Lookup:
				c.op = cLookup
				ops(x.X, x.Index)
				c.t2 = ti(x.Index.Type())
				c.typ = x.X.Type()
				if x.CommaOk {
					c.n = 1
				}
			case *ssa.MakeChan:
				c.op = cMakeChan
				ops(x.Size)
				c.typ = x.Type().Underlying().(*types.Chan).Elem()
			case *ssa.MakeClosure:
				c.op = cMakeClosure
				ops(x.Bindings...)
				c.typ = nil
			case *ssa.MakeMap:
				c.op = cMakeMap
			case *ssa.MakeSlice:
				c.op = cMakeSlice
				ops(x.Len, x.Cap)
				c.t2 = ti(x.Len.Type())
				c.typ = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.MapUpdate:
				c.op = cMapUpdate
				ops(x.Map, x.Key, x.Value)
				c.typ = x.Map.Type()
			case *ssa.Next:
				c.op = cNext
				ops(x.Iter)
				if x.IsString {
					c.n = 1
				}
			case *ssa.Range:
				c.op = cRange
				ops(x.X)
				c.typ = x.X.Type()
			case *ssa.Panic:
				c.op = cPanic
				ops(x.X)
			case *ssa.Return:
				c.op = cReturn
				ops(x.Results...)
			case *ssa.RunDefers:
				c.op = cRunDefers
			case *ssa.Select:
				c.op = cSelect
			case *ssa.Send:
				c.op = cSend
				ops(x.Chan, x.X)
			case *ssa.Slice:
				c.op = cSlice
				ops(x.X, x.Low, x.High, x.Max)
				if x.Low != nil {
					c.n |= 1
				}
				if x.High != nil {
					c.n |= 2
				}
				if x.Max != nil {
					c.n |= 4
				}
				c.typ = x.X.Type()
			case *ssa.SliceToArrayPointer:
				c.op = cSliceToArr
				ops(x.X)
				c.typ = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.Store:
				c.op = cStore
				ops(x.Addr, x.Val)
				c.t2 = ti(x.Val.Type())
			case *ssa.TypeAssert:
				c.op = cTypeAssert
				ops(x.X)
				c.typ = x.AssertedType
				if x.CommaOk {
					c.n = 1
				}
			case *ssa.If:
				c.op = cIf
				ops(x.Cond)
			case *ssa.Jump:
				c.op = cJump
			default:
				panic(fmt.Sprintf("compile: %T", in))
			}
			cb.ins = append(cb.ins, c)
		}
	}
	fi.recov = -1
	if f.Recover != nil {
		fi.recov = f.Recover.Index
	}
	fi.ipdom = postdoms(fi)
}

func compileCall(c *cin, call *ssa.CallCommon, ops func(...ssa.Value)) {
	if call.IsInvoke() {
		ops(call.Value)
		c.n = 2
		c.bi = call.Method.Name()
	} else if b, ok := call.Value.(*ssa.Builtin); ok {
		c.n = 1
		c.bi = b.Name()
		if len(call.Args) > 0 {
			c.typ = call.Args[0].Type()
			c.t2 = ti(c.typ)
		}
	} else {
		ops(call.Value)
		if f, ok := call.Value.(*ssa.Function); ok {
			c.fn = fnEntry(f)
		}
	}
	ops(call.Args...)
}

// postdoms computes immediate postdominators, ignoring blocks from which only a
// panic is reachable. -1 stands for the virtual exit.
func postdoms(fi *fnInfo) []int {
	n := len(fi.blocks)
	exit := n
	reaches := make([]bool, n+1)
	reaches[exit] = true
	succ := make([][]int, n+1)
	for i := range fi.blocks {
		b := &fi.blocks[i]
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == cReturn {
			succ[i] = []int{exit}
		} else {
			succ[i] = b.succ
		}
	}
	for ch := true; ch; {
		ch = false
		for i := 0; i < n; i++ {
			if !reaches[i] {
				for _, s := range succ[i] {
					if reaches[s] {
						reaches[i] = true
						ch = true
						break
					}
				}
			}
		}
	}
	// bitset data-flow (functions are small)
	words := (n + 1 + 63) / 64
	dom := make([][]uint64, n+1)
	for i := range dom {
		dom[i] = make([]uint64, words)
		for j := range dom[i] {
			dom[i][j] = ^uint64(0)
		}
	}
	set := func(b []uint64, i int) { b[i/64] |= 1 << (i % 64) }
	has := func(b []uint64, i int) bool { return b[i/64]>>(i%64)&1 == 1 }
	dom[exit] = make([]uint64, words)
	set(dom[exit], exit)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := make([]uint64, words)
			for j := range nw {
				nw[j] = ^uint64(0)
			}
			any := false
			for _, s := range succ[i] {
				if !reaches[s] {
					continue
				}
				any = true
				for j := range nw {
					nw[j] &= dom[s][j]
				}
			}
			if !any {
				continue
			}
			set(nw, i)
			for j := range nw {
				if nw[j] != dom[i][j] {
					ch = true
				}
			}
			dom[i] = nw
		}
	}
	res := make([]int, n)
	for i := 0; i < n; i++ {
		res[i] = -1
		if !reaches[i] {
			continue
		}
		// immediate: the strict postdominator that is postdominated by all others
		best, bc := -1, -1
		for j := 0; j <= n; j++ {
			if j == i || !has(dom[i], j) || !reaches[j] {
				continue
			}
			cnt := 0
			for k := 0; k <= n; k++ {
				if has(dom[j], k) {
					cnt++
				}
			}
			if cnt > bc {
				best, bc = j, cnt
			}
		}
		res[i] = best
	}
	return res
}
