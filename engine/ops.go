package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) exec(fr *Frame, c *cin) {
	switch c.op {
	case cLoad:
		fr.regs[c.dst] = p.load(p.get(fr, &c.a[0]), c.t)
	case cStore:
		p.store(p.get(fr, &c.a[0]), p.get(fr, &c.a[1]), c.t2)
	case cBinOp:
		fr.regs[c.dst] = p.binop(c, p.get(fr, &c.a[0]), p.get(fr, &c.a[1]))
	case cUnOp:
		fr.regs[c.dst] = p.unop(c, p.get(fr, &c.a[0]))
	case cIndexAddr:
		fr.regs[c.dst] = p.indexAddr(fr, c)
	case cFieldAddr:
		x := p.get(fr, &c.a[0])
		switch q := x.p.(type) {
		case *Val:
			a, ok := q.p.(*Agg)
			if !ok {
				if ps, ok := q.p.(*poison); ok {
					panic(mergeAbort{ps.dec, "poison"})
				}
				panic(unsupported(fmt.Sprintf("field of %T in %s", q.p, p.ctxString(fr))))
			}
			fr.regs[c.dst] = Val{p: &a.els()[c.n]}
		case *SymPtr:
			n := *q
			n.path = append(append([]int(nil), q.path...), c.n)
			fr.regs[c.dst] = Val{p: &n}
		case nil:
			p.tpanic("nil pointer dereference")
		default:
			panic(unsupported(fmt.Sprintf("fieldaddr of %T", x.p)))
		}
	case cField:
		x := p.get(fr, &c.a[0])
		fr.regs[c.dst] = x.agg().els()[c.n]
	case cCall:
		fr.regs[c.dst] = p.doCall(fr, c)
	case cAlloc:
		cell := new(Val)
		*cell = zero(c.typ)
		p.alloc++
		fr.regs[c.dst] = Val{p: cell}
	case cConvert:
		fr.regs[c.dst] = p.convert(c, p.get(fr, &c.a[0]))
	case cChangeType, cChangeIface:
		fr.regs[c.dst] = p.get(fr, &c.a[0])
	case cExtract:
		t := p.get(fr, &c.a[0]).p.(*Tup)
		v := t.v[c.n]
		if ps, ok := v.p.(*poison); ok {
			panic(mergeAbort{ps.dec, "poison"})
		}
		fr.regs[c.dst] = v
	case cSlice:
		fr.regs[c.dst] = p.sliceOp(fr, c)
	case cMakeSlice:
		n := p.concInt(p.get(fr, &c.a[0]), c.t2)
		m := p.concInt(p.get(fr, &c.a[1]), c.t2)
		if n < 0 {
			p.tpanic("makeslice: len out of range")
		}
		if m < n {
			p.tpanic("makeslice: cap out of range")
		}
		p.checkAlloc(m, c.typ)
		fr.regs[c.dst] = Val{p: &SliceV{a: &Agg{n: m, et: c.typ}, len: n, cap: m}}
	case cMakeIface:
		x := p.get(fr, &c.a[0])
		fr.regs[c.dst] = Val{p: &Iface{t: c.typ, v: x}}
	case cTypeAssert:
		fr.regs[c.dst] = p.typeAssert(c, p.get(fr, &c.a[0]))
	case cMakeClosure:
		cl := &Closure{fn: c.in.(*ssa.MakeClosure).Fn.(*ssa.Function)}
		for i := range c.a {
			cl.binds = append(cl.binds, p.get(fr, &c.a[i]))
		}
		fr.regs[c.dst] = Val{p: cl}
	case cIndex:
		x := p.get(fr, &c.a[0])
		idx := p.get(fr, &c.a[1])
		if a, ok := x.p.(*Agg); ok {
			el := a.els()
			if idx.p == nil {
				i := int64(sxT(idx.c, c.t2))
				if i < 0 || i >= int64(len(el)) {
					p.tpanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(el)))
				}
				fr.regs[c.dst] = el[i]
				return
			}
			ix := p.symIndex(idx, c.t2, len(el))
			if c.t.kind == kOther || c.t.kind == kString {
				fr.regs[c.dst] = el[p.concretise(ix)]
				return
			}
			fr.regs[c.dst] = p.mux(len(el), ix, c.t, func(i int) Val { return el[i] })
			return
		}
		fr.regs[c.dst] = p.strIndex(x, idx, c.t2)
	case cLookup:
		x := p.get(fr, &c.a[0])
		idx := p.get(fr, &c.a[1])
		if _, ok := c.typ.Underlying().(*types.Map); ok {
			p.raceMap(x, false)
			fr.regs[c.dst] = p.mapLookup(c, x, idx)
			return
		}
		fr.regs[c.dst] = p.strIndex(x, idx, c.t2)
	case cMakeMap:
		fr.regs[c.dst] = Val{p: &MapV{m: map[any]int{}}}
	case cMapUpdate:
		p.raceMap(p.get(fr, &c.a[0]), true)
		p.mapUpdate(c.typ, p.get(fr, &c.a[0]), p.get(fr, &c.a[1]), p.get(fr, &c.a[2]))
	case cRange:
		x := p.get(fr, &c.a[0])
		fr.regs[c.dst] = Val{p: &iter{x: x}}
	case cNext:
		fr.regs[c.dst] = p.iterNext(c, p.get(fr, &c.a[0]).p.(*iter))
	case cDefer:
		d := deferred{c: c}
		p.callArgs(fr, c, &d.fn, &d.args)
		if c.n == 1 {
			d.bi = c.bi
		}
		fr.defers = append(fr.defers, d)
		if p.mdepth > 0 {
			p.abortMerge("defer")
		}
	case cRunDefers:
		p.runDefers(fr)
		if fr.tp != nil {
			tp := fr.tp
			fr.tp = nil
			panic(tp)
		}
	case cGo:
		var f Val
		var args []Val
		p.callArgs(fr, c, &f, &args)
		p.abortMerge("go")
		p.spawn(f, args)
	case cMakeChan:
		n := p.concInt(p.get(fr, &c.a[0]), tinfo{kInt, 64, true})
		fr.regs[c.dst] = Val{p: &ChanV{cap: n, et: c.typ}}
	case cSend:
		p.abortMerge("send")
		p.chanSend(p.get(fr, &c.a[0]), p.get(fr, &c.a[1]))
	case cSelect:
		p.abortMerge("select")
		fr.regs[c.dst] = p.selectOp(fr, c)
	case cSliceToArr:
		s := p.get(fr, &c.a[0]).slice()
		n := int(c.typ.Underlying().(*types.Array).Len())
		if s == nil || s.len < n {
			p.tpanic("slice to array pointer: length")
		}
		if s.off == 0 && len(s.a.els()) == n {
			fr.regs[c.dst] = Val{p: &Val{p: s.a}}
			return
		}
		// a view sharing storage
		fr.regs[c.dst] = Val{p: &Val{p: &Agg{e: s.a.els()[s.off : s.off+n], n: n, et: s.a.et}}}
	case cPanic:
		v := p.get(fr, &c.a[0])
		panic(&targetPanic{v: v, msg: panicMsg(v), at: p.ctxString(fr)})
	case cNop:
	default:
		panic(fmt.Sprintf("exec op %d %v", c.op, c.in))
	}
}

func sxT(c uint64, t tinfo) int64 {
	if t.signed {
		return sx(c, t.sort)
	}
	return int64(c)
}

const allocLimit = 1 << 26

func (p *Path) checkAlloc(n int, t types.Type) {
	p.alloc += int64(n)
	if n > allocLimit || p.alloc > 4*allocLimit {
		if n > 1<<40 {
			p.tpanic("makeslice: len out of range (huge)")
		}
		p.note(fmt.Sprintf("allocation of %d elements at %s", n, p.ctxString(p.cur)))
		p.incompl++
		panic(pathEnd{"alloc limit"})
	}
}

// symIndex checks 0 <= idx < n and returns a 64-bit (or narrower) index term.
func (p *Path) symIndex(idx Val, t tinfo, n int) *Term {
	x := p.toTerm(idx, t.sort)
	x = p.tb.Resize(x, 64, t.signed)
	ok := p.tb.Ult(x, p.tb.BV(64, uint64(n)))
	if !p.branch(ok) {
		p.tpanic(fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
	return x
}

func (p *Path) indexAddr(fr *Frame, c *cin) Val {
	x := p.get(fr, &c.a[0])
	idx := p.get(fr, &c.a[1])
	var a *Agg
	off, n := 0, 0
	switch q := x.p.(type) {
	case *SliceV:
		a, off, n = q.a, q.off, q.len
	case *Val:
		ag, ok := q.p.(*Agg)
		if !ok {
			if ps, ok := q.p.(*poison); ok {
				panic(mergeAbort{ps.dec, "poison"})
			}
			panic(unsupported(fmt.Sprintf("indexaddr of %T", q.p)))
		}
		a = ag
		n = len(a.els())
	case nil:
		if _, ok := c.typ.Underlying().(*types.Slice); ok {
			if idx.p != nil {
				p.tpanic("index out of range [symbolic] with length 0")
			}
			p.tpanic(fmt.Sprintf("index out of range [%d] with length 0", sxT(idx.c, c.t2)))
		}
		p.tpanic("nil pointer dereference")
	case *SymPtr:
		r := p.resolve(x)
		ag, ok := r.p.(*Val).p.(*Agg)
		if !ok {
			panic(unsupported("indexaddr symptr"))
		}
		a = ag
		n = len(a.els())
	default:
		panic(unsupported(fmt.Sprintf("indexaddr of %T", x.p)))
	}
	if idx.p == nil {
		i := sxT(idx.c, c.t2)
		if i < 0 || i >= int64(n) {
			p.tpanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return Val{p: &a.els()[off+int(i)]}
	}
	ix := p.symIndex(idx, c.t2, n)
	if ix.isConst() {
		return Val{p: &a.els()[off+int(ix.k)]}
	}
	et := a.et
	if et != nil {
		k := ti(et).kind
		if k == kString || k == kOther {
			if _, isStruct := et.Underlying().(*types.Struct); !isStruct {
				i := p.concretise(ix)
				return Val{p: &a.els()[off+int(i)]}
			}
		}
	}
	return Val{p: &SymPtr{a: a, off: off, n: n, idx: ix}}
}

func (p *Path) strIndex(x, idx Val, t tinfo) Val {
	n := strLen(x)
	if idx.p == nil {
		i := sxT(idx.c, t)
		if i < 0 || i >= int64(n) {
			p.tpanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		if s, ok := x.p.(string); ok {
			return Val{c: uint64(s[i])}
		}
		return x.p.(*SymStr).b[i]
	}
	ix := p.symIndex(idx, t, n)
	b := strBytes(x)
	return p.mux(n, ix, tinfo{kInt, 8, false}, func(i int) Val { return b[i] })
}

func (p *Path) sliceOp(fr *Frame, c *cin) Val {
	x := p.get(fr, &c.a[0])
	t64 := tinfo{kInt, 64, true}
	conv := func(i int) int {
		v := p.get(fr, &c.a[i])
		var o ssa.Value
		s := c.in.(*ssa.Slice)
		switch i {
		case 1:
			o = s.Low
		case 2:
			o = s.High
		case 3:
			o = s.Max
		}
		if o != nil {
			t64 = ti(o.Type())
		}
		if v.p != nil && v.isSym() {
			// bounds first, so that out-of-range values are one case
			w := p.tb.Resize(v.term(), 64, t64.signed)
			lim := 0
			switch q := x.p.(type) {
			case *SliceV:
				lim = q.cap
			case *Val:
				if a, ok := q.p.(*Agg); ok {
					lim = len(a.els())
				}
			default:
				lim = strLen(x)
			}
			if !p.branch(p.tb.Ule(w, p.tb.BV(64, uint64(lim)))) {
				p.tpanic("slice bounds out of range [symbolic]")
			}
		}
		return p.concInt(v, t64)
	}
	lo, hi, mx := 0, -1, -1
	if c.n&1 != 0 {
		lo = conv(1)
	}
	if c.n&2 != 0 {
		hi = conv(2)
		if hi < 0 {
			p.tpanic("slice bounds out of range (negative high)")
		}
	}
	if c.n&4 != 0 {
		mx = conv(3)
		if mx < 0 {
			p.tpanic("slice bounds out of range (negative max)")
		}
	}
	if lo < 0 {
		p.tpanic("slice bounds out of range (negative low)")
	}
	switch q := x.p.(type) {
	case *SliceV:
		if hi < 0 {
			hi = q.len
		}
		if mx < 0 {
			mx = q.cap
		}
		if lo > hi || hi > mx || mx > q.cap {
			p.tpanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, q.cap))
		}
		return Val{p: &SliceV{a: q.a, off: q.off + lo, len: hi - lo, cap: mx - lo}}
	case *Val:
		a, ok := q.p.(*Agg)
		if !ok {
			panic(unsupported("slice of pointer"))
		}
		n := len(a.els())
		if hi < 0 {
			hi = n
		}
		if mx < 0 {
			mx = n
		}
		if lo > hi || hi > mx || mx > n {
			p.tpanic("slice bounds out of range (array)")
		}
		return Val{p: &SliceV{a: a, off: lo, len: hi - lo, cap: mx - lo}}
	case nil:
		if _, ok := c.typ.Underlying().(*types.Pointer); ok {
			p.tpanic("nil pointer dereference")
		}
		if lo != 0 || hi > 0 || mx > 0 {
			p.tpanic("slice bounds out of range (nil)")
		}
		return Val{}
	case string, *SymStr:
		n := strLen(x)
		if hi < 0 {
			hi = n
		}
		if lo > hi || hi > n {
			p.tpanic(fmt.Sprintf("slice bounds out of range [%d:%d] of string %d", lo, hi, n))
		}
		if s, ok := q.(string); ok {
			return strVal(s[lo:hi])
		}
		return mkStr(strBytes(x)[lo:hi])
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x.p)))
}

// ---------- arithmetic ----------

func (p *Path) unop(c *cin, x Val) Val {
	switch c.tok {
	case token.SUB:
		if c.t.kind == kFloat {
			if a, ok := x.p.(*Aff); ok {
				return Val{p: p.rv.fin(affScale(a, -1), c.t.sort, false)}
			}
			return fromTerm(p.tb.FUn(OFNeg, 0, p.toTerm(x, c.t.sort)))
		}
		if x.p == nil {
			return Val{c: -x.c & mask(c.t.sort)}
		}
		return fromTerm(p.tb.Neg(p.toTerm(x, c.t.sort)))
	case token.NOT:
		if x.p == nil {
			return Val{c: 1 - x.c}
		}
		return fromTerm(p.tb.Not(p.toTerm(x, SBool)))
	case token.XOR:
		if x.p == nil {
			return Val{c: ^x.c & mask(c.t.sort)}
		}
		return fromTerm(p.tb.NotBV(p.toTerm(x, c.t.sort)))
	case token.ARROW:
		p.abortMerge("recv")
		v, ok := p.chanRecv(x)
		if c.n == 1 {
			return Val{p: &Tup{[]Val{v, boolVal(ok)}}}
		}
		return v
	}
	panic(unsupported("unop " + c.tok.String()))
}

func (p *Path) binop(c *cin, x, y Val) Val {
	t := c.t2
	switch t.kind {
	case kInt:
		return p.intBin(c, x, y, t)
	case kFloat:
		return p.floatBin(c.tok, x, y, t.sort)
	case kBool:
		var r *Term
		if x.p == nil && y.p == nil {
			switch c.tok {
			case token.EQL:
				return boolVal(x.c == y.c)
			case token.NEQ:
				return boolVal(x.c != y.c)
			}
		}
		a, b := p.toTerm(x, SBool), p.toTerm(y, SBool)
		switch c.tok {
		case token.EQL:
			r = p.tb.Eq(a, b)
		case token.NEQ:
			r = p.tb.Not(p.tb.Eq(a, b))
		case token.AND, token.LAND:
			r = p.tb.And(a, b)
		case token.OR, token.LOR:
			r = p.tb.Or(a, b)
		default:
			panic(unsupported("bool op " + c.tok.String()))
		}
		return fromTerm(r)
	case kString:
		switch c.tok {
		case token.ADD:
			a, ok1 := goStr(x)
			b, ok2 := goStr(y)
			if ok1 && ok2 {
				return strVal(a + b)
			}
			return mkStr(append(append([]Val(nil), strBytes(x)...), strBytes(y)...))
		case token.EQL:
			return fromTerm(p.eq(x, y, c.typ))
		case token.NEQ:
			return fromTerm(p.tb.Not(p.eq(x, y, c.typ)))
		}
		a, ok1 := goStr(x)
		b, ok2 := goStr(y)
		if ok1 && ok2 {
			switch c.tok {
			case token.LSS:
				return boolVal(a < b)
			case token.LEQ:
				return boolVal(a <= b)
			case token.GTR:
				return boolVal(a > b)
			case token.GEQ:
				return boolVal(a >= b)
			}
		}
		panic(unsupported("symbolic string order"))
	}
	switch c.tok {
	case token.EQL:
		return fromTerm(p.eq(x, y, c.typ))
	case token.NEQ:
		return fromTerm(p.tb.Not(p.eq(x, y, c.typ)))
	}
	panic(unsupported("binop " + c.tok.String() + " on " + c.typ.String()))
}

// eq is Go's == on values of static type t.
func (p *Path) eq(x, y Val, t types.Type) *Term {
	if ps, ok := x.p.(*poison); ok {
		panic(mergeAbort{ps.dec, "poison"})
	}
	if ps, ok := y.p.(*poison); ok {
		panic(mergeAbort{ps.dec, "poison"})
	}
	inf := ti(t)
	switch inf.kind {
	case kInt, kBool:
		if x.p == nil && y.p == nil {
			return p.tb.Bool(x.c == y.c)
		}
		return p.tb.Eq(p.toTerm(x, inf.sort), p.toTerm(y, inf.sort))
	case kFloat:
		return p.tb.FCmp(OFEq, p.toTerm(x, inf.sort), p.toTerm(y, inf.sort))
	case kString:
		a, ok1 := goStr(x)
		b, ok2 := goStr(y)
		if ok1 && ok2 {
			return p.tb.Bool(a == b)
		}
		xb, yb := strBytes(x), strBytes(y)
		if len(xb) != len(yb) {
			return p.tb.False
		}
		r := p.tb.True
		for i := range xb {
			r = p.tb.And(r, p.tb.Eq(p.toTerm(xb[i], 8), p.toTerm(yb[i], 8)))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, b := x.agg().els(), y.agg().els()
		r := p.tb.True
		for i := 0; i < u.NumFields(); i++ {
			r = p.tb.And(r, p.eq(a[i], b[i], u.Field(i).Type()))
		}
		return r
	case *types.Array:
		a, b := x.agg().els(), y.agg().els()
		r := p.tb.True
		for i := range a {
			r = p.tb.And(r, p.eq(a[i], b[i], u.Elem()))
		}
		return r
	case *types.Interface:
		xi, _ := x.p.(*Iface)
		yi, _ := y.p.(*Iface)
		if xi == nil || yi == nil {
			if xi == nil && x.p != nil || yi == nil && y.p != nil {
				panic(unsupported("iface eq"))
			}
			return p.tb.Bool(xi == nil && yi == nil)
		}
		if !types.Identical(xi.t, yi.t) {
			return p.tb.False
		}
		if !types.Comparable(xi.t) {
			p.tpanic("comparing uncomparable type " + xi.t.String())
		}
		return p.eq(xi.v, yi.v, xi.t)
	case *types.Slice, *types.Signature, *types.Map:
		return p.tb.Bool(x.p == nil && y.p == nil)
	}
	if x.p == nil || y.p == nil {
		return p.tb.Bool(x.p == nil && y.p == nil)
	}
	if _, ok := x.p.(*SymPtr); ok {
		x = p.resolve(x)
	}
	if _, ok := y.p.(*SymPtr); ok {
		y = p.resolve(y)
	}
	return p.tb.Bool(x.p == y.p)
}

func (p *Path) intBin(c *cin, x, y Val, t tinfo) Val {
	w := t.sort
	m := mask(w)
	if b, ok := x.p.(*affBits); ok {
		return b.mask(c.tok, y)
	} else if b, ok := y.p.(*affBits); ok {
		return b.mask(c.tok, x)
	}
	if c.tok == token.SHL || c.tok == token.SHR {
		return p.shift(c, x, y, t)
	}
	if x.p == nil && y.p == nil {
		a, b := x.c, y.c
		switch c.tok {
		case token.ADD:
			return Val{c: (a + b) & m}
		case token.SUB:
			return Val{c: (a - b) & m}
		case token.MUL:
			return Val{c: (a * b) & m}
		case token.QUO:
			if b == 0 {
				p.tpanic("integer divide by zero")
			}
			if t.signed {
				r, _ := foldBV(OSDiv, w, a, b)
				return Val{c: r}
			}
			return Val{c: a / b}
		case token.REM:
			if b == 0 {
				p.tpanic("integer divide by zero")
			}
			if t.signed {
				r, _ := foldBV(OSRem, w, a, b)
				return Val{c: r}
			}
			return Val{c: a % b}
		case token.AND:
			return Val{c: a & b}
		case token.OR:
			return Val{c: a | b}
		case token.XOR:
			return Val{c: a ^ b}
		case token.AND_NOT:
			return Val{c: a &^ b}
		case token.EQL:
			return boolVal(a == b)
		case token.NEQ:
			return boolVal(a != b)
		}
		if t.signed {
			i, j := sx(a, w), sx(b, w)
			switch c.tok {
			case token.LSS:
				return boolVal(i < j)
			case token.LEQ:
				return boolVal(i <= j)
			case token.GTR:
				return boolVal(i > j)
			case token.GEQ:
				return boolVal(i >= j)
			}
		}
		switch c.tok {
		case token.LSS:
			return boolVal(a < b)
		case token.LEQ:
			return boolVal(a <= b)
		case token.GTR:
			return boolVal(a > b)
		case token.GEQ:
			return boolVal(a >= b)
		}
		panic("intbin " + c.tok.String())
	}
	tb := p.tb
	a, b := p.toTerm(x, w), p.toTerm(y, w)
	var r *Term
	switch c.tok {
	case token.ADD:
		r = tb.Bin(OAdd, a, b)
	case token.SUB:
		r = tb.Bin(OSub, a, b)
	case token.MUL:
		r = tb.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if !p.branch(tb.Not(tb.Eq(b, tb.BV(w, 0)))) {
			p.tpanic("integer divide by zero")
		}
		op := map[bool]map[token.Token]Op{true: {token.QUO: OSDiv, token.REM: OSRem}, false: {token.QUO: OUDiv, token.REM: OURem}}[t.signed][c.tok]
		r = tb.Bin(op, a, b)
	case token.AND:
		r = tb.Bin(OAnd, a, b)
	case token.OR:
		r = tb.Bin(OOr, a, b)
	case token.XOR:
		r = tb.Bin(OXor, a, b)
	case token.AND_NOT:
		r = tb.Bin(OAnd, a, tb.NotBV(b))
	case token.EQL:
		r = tb.Eq(a, b)
	case token.NEQ:
		r = tb.Not(tb.Eq(a, b))
	case token.LSS:
		if t.signed {
			r = tb.Slt(a, b)
		} else {
			r = tb.Ult(a, b)
		}
	case token.LEQ:
		if t.signed {
			r = tb.Sle(a, b)
		} else {
			r = tb.Ule(a, b)
		}
	case token.GTR:
		if t.signed {
			r = tb.Slt(b, a)
		} else {
			r = tb.Ult(b, a)
		}
	case token.GEQ:
		if t.signed {
			r = tb.Sle(b, a)
		} else {
			r = tb.Ule(b, a)
		}
	default:
		panic("intbin " + c.tok.String())
	}
	return fromTerm(r)
}

func (p *Path) shift(c *cin, x, y Val, t tinfo) Val {
	w := t.sort
	cw := Sort(c.n)
	signed := false
	if c.n < 0 {
		cw = Sort(-c.n)
		signed = true
	}
	if signed {
		if y.p == nil {
			if sx(y.c, cw) < 0 {
				p.tpanic("negative shift amount")
			}
		} else {
			neg := p.tb.Slt(p.toTerm(y, cw), p.tb.BV(cw, 0))
			if p.branch(neg) {
				p.tpanic("negative shift amount")
			}
		}
	}
	op := OShl
	if c.tok == token.SHR {
		op = OLshr
		if t.signed {
			op = OAshr
		}
	}
	if x.p == nil && y.p == nil {
		r, _ := foldBV(op, w, x.c, y.c)
		return Val{c: r}
	}
	tb := p.tb
	a := p.toTerm(x, w)
	var cnt *Term
	b := p.toTerm(y, cw)
	if cw <= w {
		cnt = tb.Zext(b, w)
	} else {
		// saturate
		big := tb.Ult(tb.BV(cw, uint64(w)-1), b)
		cnt = tb.Ite(big, tb.BV(w, uint64(w)&mask(w)), tb.Extract(b, 0, w))
		if uint64(w)&mask(w) != uint64(w) {
			panic("shift width")
		}
	}
	return fromTerm(tb.Bin(op, a, cnt))
}

func affOf(v Val, s Sort) *Aff {
	switch x := v.p.(type) {
	case nil:
		f := 0.0
		if s == SF32 {
			f = float64(f32(v.c))
		} else {
			f = f64(v.c)
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			panic(unsupported("non-finite constant in linear arithmetic"))
		}
		return affConst(f)
	case *Aff:
		return x
	}
	return nil
}

func (p *Path) floatBin(tok token.Token, x, y Val, s Sort) Val {
	_, ax := x.p.(*Aff)
	_, ay := y.p.(*Aff)
	if ax || ay {
		return p.affBin(tok, x, y, s)
	}
	a, b := p.toTerm(x, s), p.toTerm(y, s)
	tb := p.tb
	var r *Term
	switch tok {
	case token.ADD:
		r = tb.FBin(OFAdd, a, b)
	case token.SUB:
		r = tb.FBin(OFSub, a, b)
	case token.MUL:
		r = tb.FBin(OFMul, a, b)
	case token.QUO:
		r = tb.FBin(OFDiv, a, b)
	case token.EQL:
		r = tb.FCmp(OFEq, a, b)
	case token.NEQ:
		r = tb.Not(tb.FCmp(OFEq, a, b))
	case token.LSS:
		r = tb.FCmp(OFLt, a, b)
	case token.LEQ:
		r = tb.FCmp(OFLe, a, b)
	case token.GTR:
		r = tb.FCmp(OFLt, b, a)
	case token.GEQ:
		r = tb.FCmp(OFLe, b, a)
	default:
		panic("floatbin")
	}
	return fromTerm(r)
}

func (p *Path) affBin(tok token.Token, x, y Val, s Sort) Val {
	a, b := affOf(x, s), affOf(y, s)
	if a == nil || b == nil {
		panic(unsupported("mixed bit-precise and real arithmetic"))
	}
	switch tok {
	case token.ADD:
		if len(b.vs) == 0 && b.c == 0 && b.err == 0 {
			return x
		}
		if len(a.vs) == 0 && a.c == 0 && a.err == 0 {
			return y
		}
		return Val{p: p.rv.fin(affLin(a, 1, b, 1), s, true)}
	case token.SUB:
		if len(b.vs) == 0 && b.c == 0 && b.err == 0 {
			return x
		}
		if a == b {
			return Val{} // finite values: exactly zero
		}
		return Val{p: p.rv.fin(affLin(a, 1, b, -1), s, true)}
	case token.MUL:
		if len(a.vs) == 0 && (len(b.vs) != 0 || a.err == 0) {
			a, b = b, a
		}
		if len(b.vs) == 0 {
			if b.err == 0 && b.c == 1 {
				return Val{p: a}
			}
			if b.err == 0 && b.c == 0 {
				return Val{}
			}
			r := affScale(a, b.c)
			r.err += b.err * (a.bound + a.err)
			return Val{p: p.rv.fin(r, s, true)}
		}
		return Val{p: p.rv.fin(p.affMul(a, b), s, true)}
	case token.QUO:
		if lim := math.Abs(b.c) - b.err; len(b.vs) == 0 && lim > 0 {
			r := affScale(a, 1/b.c)
			r.err += (a.bound + a.err) * b.err / (math.Abs(b.c) * lim)
			return Val{p: p.rv.fin(r, s, true)}
		}
		panic(unsupported("division by real-valued input"))
	}
	// comparisons: a-b within error
	d := affLin(a, 1, b, -1)
	p.rv.fin(d, s, false)
	if d.err > 0 {
		// decisive only outside the error band
	}
	mk := func(f *Aff, strict bool) *Term {
		k := uint64(1)
		if strict {
			k = 0
		}
		return p.realAtom(f, k)
	}
	neg := p.rv.fin(affScale(d, -1), s, false)
	switch tok {
	case token.LSS:
		return fromTerm(mk(d, true))
	case token.LEQ:
		return fromTerm(mk(d, false))
	case token.GTR:
		return fromTerm(mk(neg, true))
	case token.GEQ:
		return fromTerm(mk(neg, false))
	case token.EQL:
		return fromTerm(p.tb.And(mk(d, false), mk(neg, false)))
	case token.NEQ:
		return fromTerm(p.tb.Not(p.tb.And(mk(d, false), mk(neg, false))))
	}
	panic("affbin")
}

// realAtom is f < 0 (k=0) or f <= 0 (k=1); constants and trivially bounded forms fold.
func (p *Path) realAtom(f *Aff, k uint64) *Term {
	if len(f.vs) == 0 {
		if k == 0 {
			return p.tb.Bool(f.c < 0)
		}
		return p.tb.Bool(f.c <= 0)
	}
	lo, hi := f.c, f.c
	for _, t := range f.vs {
		v := &p.rv.vars[t.v]
		if t.a > 0 {
			lo, hi = lo+t.a*v.lo, hi+t.a*v.hi
		} else {
			lo, hi = lo+t.a*v.hi, hi+t.a*v.lo
		}
	}
	if m := f.bound * eps64; hi < -m {
		return p.tb.Bool(true)
	} else if lo > m {
		return p.tb.Bool(false)
	}
	return p.tb.mkN(OReal, SBool, k, "", f)
}

// ---------- conversions ----------

func (p *Path) convert(c *cin, x Val) Val {
	from, to := c.t2, c.t
	tb := p.tb
	switch {
	case from.kind == kInt && to.kind == kInt:
		if x.p == nil {
			if to.sort > from.sort && from.signed {
				return Val{c: uint64(sx(x.c, from.sort)) & mask(to.sort)}
			}
			return Val{c: x.c & mask(to.sort)}
		}
		return fromTerm(tb.Resize(p.toTerm(x, from.sort), to.sort, from.signed))
	case from.kind == kInt && to.kind == kFloat:
		if x.p == nil {
			return Val{c: intToF(x.c, from.sort, from.signed, to.sort)}
		}
		if ib, ok := p.w.affInts[x.term()]; ok {
			return Val{p: ib}
		}
		return fromTerm(tb.FFromInt(p.toTerm(x, from.sort), from.signed, to.sort))
	case from.kind == kFloat && to.kind == kFloat:
		if a, ok := x.p.(*Aff); ok {
			if to.sort < from.sort {
				n := *a
				return Val{p: p.rv.fin(&n, to.sort, true)}
			}
			return x
		}
		return fromTerm(tb.FCvt(p.toTerm(x, from.sort), to.sort))
	case from.kind == kFloat && to.kind == kInt:
		return p.floatToInt(x, from, to)
	case to.kind == kString:
		switch {
		case from.kind == kString:
			return x
		case from.kind == kInt:
			if x.p == nil {
				return strVal(string(rune(sxT(x.c, from))))
			}
			panic(unsupported("symbolic rune to string"))
		}
		s := x.slice()
		if s == nil {
			return strVal("")
		}
		if sl, ok := c.in.(*ssa.Convert); ok {
			if et, ok := sl.X.Type().Underlying().(*types.Slice); ok && ti(et.Elem()).sort != 8 {
				var r []rune
				for _, v := range s.a.els()[s.off : s.off+s.len] {
					if v.p != nil {
						panic(unsupported("symbolic runes"))
					}
					r = append(r, rune(int32(v.c)))
				}
				return strVal(string(r))
			}
		}
		return mkStr(s.a.els()[s.off : s.off+s.len])
	case from.kind == kString:
		st, ok := c.typ.Underlying().(*types.Slice)
		if !ok {
			break
		}
		if ti(st.Elem()).sort == 8 {
			b := append([]Val(nil), strBytes(x)...)
			return Val{p: &SliceV{a: &Agg{e: b, n: len(b), et: st.Elem()}, len: len(b), cap: len(b)}}
		}
		s, ok := goStr(x)
		if !ok {
			panic(unsupported("symbolic string to runes"))
		}
		var b []Val
		for _, r := range s {
			b = append(b, Val{c: uint64(uint32(r))})
		}
		return Val{p: &SliceV{a: &Agg{e: b, n: len(b), et: st.Elem()}, len: len(b), cap: len(b)}}
	case from.kind == kOther && to.kind == kOther:
		return x // unsafe.Pointer and friends; uses are rejected elsewhere
	}
	panic(unsupported(fmt.Sprintf("convert %v", c.in)))
}

// floatToInt follows the amd64 gc compiler, including out-of-range behaviour.
func (p *Path) floatToInt(x Val, from, to tinfo) Val {
	if a, ok := x.p.(*Aff); ok {
		if len(a.vs) == 0 {
			return Val{c: uint64(int64(a.c)) & mask(to.sort)}
		}
		panic(unsupported("real-valued input converted to integer"))
	}
	via := Sort(64)
	if to.sort < 32 || to.sort == 32 && to.signed {
		via = 32
	}
	if x.p == nil {
		var v float64
		if from.sort == SF32 {
			v = float64(f32(x.c))
		} else {
			v = f64(x.c)
		}
		if to.sort == 64 && !to.signed {
			return Val{c: uint64(v)}
		}
		if via == 32 {
			r := int64(math.MinInt32)
			if tv := math.Trunc(v); tv >= -2147483648 && tv <= 2147483647 {
				r = int64(tv)
			}
			return Val{c: uint64(r) & mask(to.sort)}
		}
		return Val{c: uint64(fToI(b64(v), SF64)) & mask(to.sort)}
	}
	tb := p.tb
	t := p.toTerm(x, from.sort)
	cst := func(v float64) *Term {
		if from.sort == SF32 {
			return tb.FPc(SF32, b32(float32(v)))
		}
		return tb.FPc(SF64, b64(v))
	}
	if to.sort == 64 && !to.signed {
		in := tb.And(tb.FCmp(OFLe, cst(0), t), tb.FCmp(OFLt, t, cst(9223372036854775808)))
		if !p.branch(in) {
			panic(unsupported("float to uint64 out of signed range"))
		}
		return fromTerm(tb.FToS(t, 64))
	}
	var in *Term
	if via == 32 {
		if from.sort == SF32 {
			in = tb.And(tb.FCmp(OFLe, cst(-2147483648), t), tb.FCmp(OFLt, t, cst(2147483648)))
		} else {
			in = tb.And(tb.FCmp(OFLt, cst(-2147483649), t), tb.FCmp(OFLt, t, cst(2147483648)))
		}
	} else {
		in = tb.And(tb.FCmp(OFLe, cst(-9223372036854775808), t), tb.FCmp(OFLt, t, cst(9223372036854775808)))
	}
	r := tb.Ite(in, tb.FToS(t, via), tb.BV(via, uint64(1)<<(via-1)))
	return fromTerm(tb.Resize(r, to.sort, true))
}

// ---------- interfaces ----------

func (p *Path) typeAssert(c *cin, x Val) Val {
	i, _ := x.p.(*Iface)
	if i == nil && x.p != nil {
		panic(unsupported(fmt.Sprintf("typeassert on %T", x.p)))
	}
	ok := false
	var r Val
	if i != nil {
		if it, isI := c.typ.Underlying().(*types.Interface); isI {
			if types.Implements(i.t, it) {
				ok = true
				r = x
			}
		} else if types.Identical(i.t, c.typ) {
			ok = true
			r = i.v
		}
	}
	if c.n == 1 {
		if !ok {
			r = zero(c.typ)
		}
		return Val{p: &Tup{[]Val{r, boolVal(ok)}}}
	}
	if !ok {
		p.tpanic("interface conversion: not " + c.typ.String())
	}
	return r
}

func (p *Path) callArgs(fr *Frame, c *cin, fn *Val, args *[]Val) {
	switch c.n {
	case 1: // builtin
		a := make([]Val, len(c.a))
		for i := range c.a {
			a[i] = p.get(fr, &c.a[i])
		}
		*args = a
		return
	case 2: // invoke
		recv := p.get(fr, &c.a[0])
		i, _ := recv.p.(*Iface)
		if i == nil {
			if recv.p != nil {
				panic(unsupported(fmt.Sprintf("invoke on %T", recv.p)))
			}
			p.tpanic("nil interface method call " + c.bi)
		}
		a := make([]Val, len(c.a))
		a[0] = i.v
		for k := 1; k < len(c.a); k++ {
			a[k] = p.get(fr, &c.a[k])
		}
		*args = a
		if nf, ok := i.v.p.(*NativeObj); ok {
			m := nf.methods[c.bi]
			if m == nil {
				panic(unsupported("native method " + c.bi))
			}
			*fn = Val{p: &NativeFn{c.bi, m}}
			return
		}
		*fn = Val{p: lookupMethod(i.t, c.bi, c.in)}
		return
	}
	*fn = p.get(fr, &c.a[0])
	a := make([]Val, len(c.a)-1)
	for k := range a {
		a[k] = p.get(fr, &c.a[k+1])
	}
	*args = a
}

// NativeObj is an engine-implemented object behind an interface.
type NativeObj struct {
	methods map[string]func(p *Path, args []Val) Val
}

type mkey struct {
	t types.Type
	n string
}

var methCache = newSyncMap[mkey, *ssa.Function]()

func lookupMethod(t types.Type, name string, in ssa.Instruction) *ssa.Function {
	k := mkey{t, name}
	if f, ok := methCache.get(k); ok {
		return f
	}
	prog := in.Parent().Prog
	loadMu.Lock()
	defer loadMu.Unlock()
	ms := prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := prog.MethodValue(ms.At(i))
			methCache.put(k, f)
			return f
		}
	}
	panic(unsupported(fmt.Sprintf("method %s of %v", name, t)))
}

func (p *Path) doCall(fr *Frame, c *cin) Val {
	switch c.n {
	case 1:
		var buf [4]Val
		a := buf[:0]
		for i := range c.a {
			a = append(a, p.get(fr, &c.a[i]))
		}
		return p.builtin(fr, c, c.bi, a)
	case 0:
		if fi := c.fn; fi != nil {
			fi.once.Do(func() { compileFn(fi) })
			a := make([]Val, len(c.a)-1)
			for k := range a {
				a[k] = p.get(fr, &c.a[k+1])
			}
			return p.call(fi, a, nil)
		}
	}
	var f Val
	var args []Val
	p.callArgs(fr, c, &f, &args)
	return p.callVal(f, args)
}

// ---------- builtins ----------

func (p *Path) builtin(fr *Frame, c *cin, name string, a []Val) Val {
	switch name {
	case "len":
		switch x := a[0].p.(type) {
		case nil:
			return Val{}
		case *SliceV:
			return intVal(x.len)
		case string, *SymStr:
			return intVal(strLen(a[0]))
		case *MapV:
			return intVal(x.n)
		case *Agg:
			return intVal(len(x.els()))
		case *Val:
			return intVal(len(x.p.(*Agg).els()))
		case *ChanV:
			return intVal(len(x.buf))
		}
	case "cap":
		switch x := a[0].p.(type) {
		case nil:
			return Val{}
		case *SliceV:
			return intVal(x.cap)
		case *Agg:
			return intVal(len(x.els()))
		case *Val:
			return intVal(len(x.p.(*Agg).els()))
		case *ChanV:
			return intVal(x.cap)
		}
	case "append":
		return p.appendOp(c, a)
	case "copy":
		d := a[0].slice()
		if d == nil {
			return Val{}
		}
		var src []Val
		switch s := a[1].p.(type) {
		case nil:
			return Val{}
		case *SliceV:
			src = s.a.els()[s.off : s.off+s.len]
		case string, *SymStr:
			src = strBytes(a[1])
		}
		n := min(d.len, len(src))
		if p.race != nil && p.racing() {
			if _, ok := a[1].p.(*SliceV); ok {
				for i := range src[:n] {
					p.raceLoad(&src[i])
				}
			}
		}
		p.copyCells(d.a, d.off, src[:n])
		return intVal(n)
	case "min", "max":
		t := c.t
		r := a[0]
		for _, y := range a[1:] {
			r = p.minmax(name == "min", r, y, t)
		}
		return r
	case "delete":
		p.abortMerge("delete")
		if m, ok := a[0].p.(*MapV); ok {
			mt := c.typ.Underlying().(*types.Map)
			k := p.mapKey(a[1], mt.Key())
			if i, ok := m.m[k]; ok {
				old := m.ents[i]
				p.trail = append(p.trail, undo{f: func() { m.m[k] = i; m.ents[i] = old; m.n++ }})
				delete(m.m, k)
				m.ents[i] = mapEnt{}
				m.n--
			}
		}
		return Val{}
	case "clear":
		switch x := a[0].p.(type) {
		case *SliceV:
			z := zero(x.a.et)
			src := make([]Val, x.len)
			for i := range src {
				src[i] = copyVal(z)
			}
			p.copyCells(x.a, x.off, src)
		case *MapV:
			om, oe, on := x.m, x.ents, x.n
			p.trail = append(p.trail, undo{f: func() { x.m, x.ents, x.n = om, oe, on }})
			x.m, x.ents, x.n = map[any]int{}, nil, 0
		}
		return Val{}
	case "close":
		p.abortMerge("close")
		ch := a[0].p.(*ChanV)
		if ch.closed {
			p.tpanic("close of closed channel")
		}
		p.trail = append(p.trail, undo{f: func() { ch.closed = false }})
		ch.closed = true
		p.release(chanKey{ch, -1, false})
		return Val{}
	case "recover":
		// called from a deferred function: the panicking frame is its caller
		f := fr.caller
		if f != nil && f.tp != nil && !f.recd {
			f.recd = true
			return f.tp.v
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "ssa:wrapnilchk":
		if a[0].p == nil {
			p.tpanic("nil pointer dereference (method value)")
		}
		return a[0]
	}
	panic(unsupported(fmt.Sprintf("builtin %s(%v)", name, a)))
}

func (p *Path) copyCells(d *Agg, off int, src []Val) {
	e := d.els()
	if len(src) == 0 {
		return
	}
	// overlapping copies: snapshot
	tmp := make([]Val, len(src))
	for i := range src {
		tmp[i] = copyVal(src[i])
	}
	s := SOther
	if d.et != nil {
		s = ti(d.et).sort
	}
	for i := range tmp {
		p.storeInto(&e[off+i], tmp[i], s)
	}
}

func (p *Path) minmax(isMin bool, x, y Val, t tinfo) Val {
	var lt Val
	tok := token.LSS
	cc := &cin{tok: tok, t2: t}
	switch t.kind {
	case kInt:
		if isMin {
			lt = p.intBin(cc, y, x, t)
		} else {
			lt = p.intBin(cc, x, y, t)
		}
	case kFloat:
		if x.p == nil && y.p == nil {
			a, b := affOf2(x, t.sort), affOf2(y, t.sort)
			r := math.Max(a, b)
			if isMin {
				r = math.Min(a, b)
			}
			if t.sort == SF32 {
				return Val{c: b32(float32(r))}
			}
			return Val{c: b64(r)}
		}
		if isMin {
			lt = p.floatBin(tok, y, x, t.sort)
		} else {
			lt = p.floatBin(tok, x, y, t.sort)
		}
	default:
		panic(unsupported("min/max"))
	}
	if lt.p == nil {
		if lt.c != 0 {
			return y
		}
		return x
	}
	if _, ok := x.p.(*Aff); ok {
		if p.branch(lt.term()) {
			return y
		}
		return x
	}
	if _, ok := y.p.(*Aff); ok {
		if p.branch(lt.term()) {
			return y
		}
		return x
	}
	return fromTerm(p.tb.Ite(lt.term(), p.toTerm(y, t.sort), p.toTerm(x, t.sort)))
}

func affOf2(v Val, s Sort) float64 {
	if s == SF32 {
		return float64(f32(v.c))
	}
	return f64(v.c)
}

// appendOp models the Go runtime's append including its capacity growth.
func (p *Path) appendOp(c *cin, a []Val) Val {
	s := a[0].slice()
	var src []Val
	if len(a) > 1 {
		switch x := a[1].p.(type) {
		case nil:
		case *SliceV:
			src = x.a.els()[x.off : x.off+x.len]
		case string, *SymStr:
			src = strBytes(a[1])
		default:
			panic(unsupported(fmt.Sprintf("append %T", x)))
		}
	}
	et := c.typ.Underlying().(*types.Slice).Elem()
	if s == nil {
		if len(src) == 0 {
			return a[0]
		}
		s = &SliceV{a: &Agg{et: et}}
	}
	n := s.len + len(src)
	if n <= s.cap {
		p.copyCells(s.a, s.off+s.len, src)
		return Val{p: &SliceV{a: s.a, off: s.off, len: n, cap: s.cap}}
	}
	nc := growCap(s.cap, n, et)
	p.checkAlloc(nc, et)
	e := make([]Val, nc)
	old := s.a.els()
	for i := 0; i < s.len; i++ {
		e[i] = copyVal(old[s.off+i])
	}
	for i := range src {
		e[s.len+i] = copyVal(src[i])
	}
	if needsZero(et) {
		for i := n; i < nc; i++ {
			e[i] = zero(et)
		}
	}
	return Val{p: &SliceV{a: &Agg{e: e, n: nc, et: et}, len: n, cap: nc}}
}

// ---------- maps ----------

type structKey string

func (p *Path) mapKey(k Val, t types.Type) any {
	inf := ti(t)
	switch inf.kind {
	case kInt, kBool:
		if k.p != nil {
			return p.concretise(p.toTerm(k, inf.sort))
		}
		return k.c
	case kFloat:
		if k.p != nil {
			panic(unsupported("symbolic float map key"))
		}
		return k.c
	case kString:
		s, ok := goStr(k)
		if !ok {
			b := strBytes(k)
			bs := make([]byte, len(b))
			for i := range b {
				bs[i] = byte(p.concretise(p.toTerm(b[i], 8)))
			}
			return string(bs)
		}
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := ""
		for i := 0; i < u.NumFields(); i++ {
			s += fmt.Sprintf("%v|", p.mapKey(k.agg().els()[i], u.Field(i).Type()))
		}
		return structKey(s)
	case *types.Array:
		s := ""
		for i := range k.agg().els() {
			s += fmt.Sprintf("%v|", p.mapKey(k.agg().els()[i], u.Elem()))
		}
		return structKey(s)
	case *types.Interface:
		i, _ := k.p.(*Iface)
		if i == nil {
			return nil
		}
		return structKey(fmt.Sprintf("%v:%v", i.t, p.mapKey(i.v, i.t)))
	}
	return k.p
}

func (p *Path) mapLookup(c *cin, m, k Val) Val {
	mt := c.typ.Underlying().(*types.Map)
	mv, _ := m.p.(*MapV)
	var v Val
	ok := false
	if mv != nil {
		if i, found := mv.m[p.mapKey(k, mt.Key())]; found {
			v = copyVal(mv.ents[i].v)
			ok = true
		}
	} else if k.p != nil && k.isSym() {
		ok = false
	}
	if !ok {
		v = zero(mt.Elem())
	}
	if c.n == 1 {
		return Val{p: &Tup{[]Val{v, boolVal(ok)}}}
	}
	return v
}

func (p *Path) mapUpdate(t types.Type, m, k, v Val) {
	p.abortMerge("map update")
	mt := t.Underlying().(*types.Map)
	mv, _ := m.p.(*MapV)
	if mv == nil {
		p.tpanic("assignment to entry in nil map")
	}
	key := p.mapKey(k, mt.Key())
	if i, ok := mv.m[key]; ok {
		old := mv.ents[i]
		p.trail = append(p.trail, undo{f: func() { mv.ents[i] = old }})
		mv.ents[i].v = copyVal(v)
		return
	}
	i := len(mv.ents)
	p.trail = append(p.trail, undo{f: func() { delete(mv.m, key); mv.ents = mv.ents[:i]; mv.n-- }})
	mv.m[key] = i
	mv.ents = append(mv.ents, mapEnt{copyVal(k), copyVal(v), true})
	mv.n++
}

type iter struct {
	x   Val
	pos int
}

func (p *Path) iterNext(c *cin, it *iter) Val {
	if p.mdepth > 0 {
		p.abortMerge("iterator")
	}
	if c.n == 1 {
		b := strBytes(it.x)
		if it.pos >= len(b) {
			return Val{p: &Tup{[]Val{{}, {}, {}}}}
		}
		var bs [4]byte
		n := 0
		for n < 4 && it.pos+n < len(b) {
			v := b[it.pos+n]
			if v.p != nil {
				v = Val{c: p.concretise(v.term())}
			}
			bs[n] = byte(v.c)
			n++
		}
		r, sz := utf8.DecodeRune(bs[:n])
		pos := it.pos
		it.pos += sz
		return Val{p: &Tup{[]Val{{c: 1}, intVal(pos), {c: uint64(uint32(r))}}}}
	}
	m, _ := it.x.p.(*MapV)
	for m != nil && it.pos < len(m.ents) {
		e := m.ents[it.pos]
		it.pos++
		if e.alive {
			return Val{p: &Tup{[]Val{{c: 1}, e.k, e.v}}}
		}
	}
	return Val{p: &Tup{[]Val{{}, {}, {}}}}
}

// growCap mirrors runtime.growslice for element size classes.
func growCap(oldCap, newLen int, et types.Type) int {
	nc := nextSliceCap(newLen, oldCap)
	sz := int(sizes.Sizeof(et))
	if sz == 0 {
		return newLen
	}
	mem := roundupsize(nc * sz)
	return mem / sz
}

var sizes = types.SizesFor("gc", "amd64")

func nextSliceCap(newLen, oldCap int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		return newLen
	}
	const threshold = 256
	if oldCap < threshold {
		return doublecap
	}
	for {
		newcap += (newcap + 3*threshold) >> 2
		if uint(newcap) >= uint(newLen) {
			break
		}
	}
	return newcap
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768 {
		for _, s := range sizeClasses {
			if s >= n {
				return s
			}
		}
	}
	return (n + 8191) &^ 8191
}
