package main

import (
	"fmt"
	"go/types"
	"math/big"
	"math/bits"
)

func (p *Path) nd(kind string, w Sort) *Term {
	name := fmt.Sprintf("n%d_%s", len(p.nds), kind)
	t := p.tb.Var(name, w)
	p.nds = append(p.nds, ndRec{name: name, kind: kind, t: t, rv: -1})
	return t
}

func init() {
	T := intrTab
	R := func(n string, f intrFn) { T[rtPath+"."+n] = f }
	mk := func(n, kind string, w Sort) {
		R(n, func(p *Path, fr *Frame, a []Val) Val { return Val{p: p.nd(kind, w)} })
	}
	mk("U8", "u8", 8)
	mk("U16", "u16", 16)
	mk("U32", "u32", 32)
	mk("I32", "u32", 32)
	mk("U64", "u64", 64)
	mk("I64", "u64", 64)
	R("Bool", func(p *Path, fr *Frame, a []Val) Val {
		t := p.nd("b1", 1)
		return fromTerm(p.tb.Eq(t, p.tb.BV(1, 1)))
	})
	R("Int", func(p *Path, fr *Frame, a []Val) Val {
		if a[0].p != nil || a[1].p != nil {
			panic(unsupported("rt.Int with symbolic bounds"))
		}
		lo, hi := int64(a[0].c), int64(a[1].c)
		if hi < lo {
			panic(pathEnd{"assume"})
		}
		span := uint64(hi - lo)
		if span == 0 {
			p.nds = append(p.nds, ndRec{name: fmt.Sprintf("n%d_const", len(p.nds)), kind: "const", rv: -1})
			return a[0]
		}
		w := Sort(bits.Len64(span))
		t := p.nd(fmt.Sprintf("w%d", w), w)
		if span != mask(w) {
			p.assume(p.tb.Ule(t, p.tb.BV(w, span)))
		}
		return fromTerm(p.tb.Bin(OAdd, p.tb.Zext(t, 64), p.tb.BV(64, uint64(lo))))
	})
	R("F32", func(p *Path, fr *Frame, a []Val) Val {
		t := p.nd("u32", 32)
		return fromTerm(p.tb.FFromBits(t, SF32))
	})
	R("Bytes", func(p *Path, fr *Frame, a []Val) Val {
		n := p.concInt(a[0], tinfo{kInt, 64, true})
		e := make([]Val, n)
		for i := range e {
			e[i] = Val{p: p.nd("u8", 8)}
		}
		v := mkSlice(e)
		v.slice().a.et = types.Typ[types.Uint8]
		return v
	})
	lin := func(s Sort) intrFn {
		return func(p *Path, fr *Frame, a []Val) Val {
			lo, hi := f64(a[0].c), f64(a[1].c)
			idx := p.rv.add(fmt.Sprintf("n%d_lin", len(p.nds)), lo, hi)
			p.nds = append(p.nds, ndRec{name: p.rv.vars[idx].name, kind: "lin", rv: idx, lo: lo})
			if z := fmt.Sprintf("r%d", idx); p.model.rl[z] == nil {
				m := p.model.clone()
				q := new(big.Rat)
				c := 0.0
				if lo > 0 || hi < 0 {
					c = lo
				}
				q.SetFloat64(c)
				m.rl[z] = q
				p.model = m
			}
			return Val{p: p.rv.fin(&Aff{vs: []affT{{idx, 1}}}, s, false)}
		}
	}
	R("Lin32", lin(SF32))
	R("Lin64", lin(SF64))
	R("Assume", func(p *Path, fr *Frame, a []Val) Val {
		p.assume(p.toTerm(a[0], SBool))
		return Val{}
	})
	R("Assert", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[1])
		p.assertion(p.toTerm(a[0], SBool), l)
		return Val{}
	})
	R("Close", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[3])
		p.closeTo(a[0], a[1], f64(a[2].c), l)
		return Val{}
	})
	R("Known", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[0])
		return boolVal(p.w.ex.known[l])
	})
	R("KnownHit", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[0])
		p.known0 = append(p.known0, l)
		return Val{}
	})
	R("Reach", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[0])
		if p.mdepth > 0 {
			p.abortMerge("reach")
		}
		p.reach[l] = true
		return Val{}
	})
	R("Observe", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[0])
		p.obs = append(p.obs, obsRec{l, a[1], tinfo{kInt, 64, false}})
		return Val{}
	})
	R("Merge", func(p *Path, fr *Frame, a []Val) Val {
		p.mergeOn = a[0].c != 0
		return Val{}
	})
	R("Symbolic", func(p *Path, fr *Frame, a []Val) Val { return boolVal(true) })
	R("Thorough", func(p *Path, fr *Frame, a []Val) Val { return boolVal(p.w.ex.thorough) })
	R("Set", func(p *Path, fr *Frame, a []Val) Val {
		l, _ := goStr(a[0])
		p.cfg[l] = int(int64(a[1].c))
		if l == "maxsteps" {
			p.maxStep = int64(a[1].c)
		}
		return Val{}
	})
	R("Concrete", func(p *Path, fr *Frame, a []Val) Val {
		return intVal(p.concInt(a[0], tinfo{kInt, 64, true}))
	})
	R("Catch", func(p *Path, fr *Frame, a []Val) (res Val) {
		depth, cur := p.depth, p.cur
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(*targetPanic); ok {
					p.depth, p.cur = depth, cur
					if p.mdepth > 0 {
						p.abortMerge("panic")
					}
					debugf("caught panic: %s at %s", tp.msg, tp.at)
					res = boolVal(true)
					return
				}
				panic(r)
			}
		}()
		p.callVal(a[0], nil)
		return boolVal(false)
	})
	R("Same", func(p *Path, fr *Frame, a []Val) Val {
		x, y := p.toTerm(a[0], SF32), p.toTerm(a[1], SF32)
		if x == y {
			return boolVal(true)
		}
		tb := p.tb
		// structural equality of the float sort identifies all NaNs and separates -0/+0
		if x.isConst() && y.isConst() {
			fx, fy := f32(x.k), f32(y.k)
			return boolVal(x.k == y.k || fx != fx && fy != fy)
		}
		return fromTerm(tb.mk(OEq, SBool, 0, []*Term{x, y}))
	})
	R("Unwrap", func(p *Path, fr *Frame, a []Val) Val {
		s := a[0].slice()
		fail := Val{p: &Tup{[]Val{{}, {}}}}
		if s == nil {
			return fail
		}
		el := s.a.els()[s.off : s.off+s.len]
		if len(el) < 6 || el[0].p != nil || el[0].c != 0x78 {
			return fail
		}
		var out []Val
		i := 2
		for {
			if i+5 > len(el)-4 {
				return fail
			}
			fin := el[i].c
			n := int(el[i+1].c | el[i+2].c<<8)
			i += 5
			if i+n > len(el)-4 {
				return fail
			}
			out = append(out, el[i:i+n]...)
			i += n
			if fin == 1 {
				break
			}
		}
		v := mkSlice(append([]Val(nil), out...))
		v.slice().a.et = types.Typ[types.Uint8]
		return Val{p: &Tup{[]Val{v, {c: 1}}}}
	})
	// zlib writer model: stored blocks
	nw := func(p *Path, fr *Frame, a []Val) Val {
		p.abortMerge("zlib")
		if p.zw == nil {
			p.zw = map[*Val]*zlibW{}
		}
		cell := new(Val)
		*cell = Val{p: &Agg{}}
		p.zw[cell] = &zlibW{w: a[0]}
		return Val{p: &Tup{[]Val{{p: cell}, {}}}}
	}
	T["compress/zlib.NewWriterLevel"] = nw
	T["compress/zlib.NewWriter"] = func(p *Path, fr *Frame, a []Val) Val {
		return nw(p, fr, a).p.(*Tup).v[0]
	}
	T["(*compress/zlib.Writer).Write"] = func(p *Path, fr *Frame, a []Val) Val {
		z := p.zw[a[0].p.(*Val)]
		p.abortMerge("zlib")
		n := 0
		if s := a[1].slice(); s != nil {
			n = s.len
			z.buf = append(z.buf, s.a.els()[s.off:s.off+s.len]...)
		}
		return Val{p: &Tup{[]Val{intVal(n), {}}}}
	}
	T["(*compress/zlib.Writer).Flush"] = func(p *Path, fr *Frame, a []Val) Val { return Val{} }
	T["(*compress/zlib.Writer).Close"] = func(p *Path, fr *Frame, a []Val) Val {
		z := p.zw[a[0].p.(*Val)]
		if z.done {
			return Val{}
		}
		z.done = true
		out := []Val{{c: 0x78}, {c: 0x01}}
		b := z.buf
		for {
			n := min(len(b), 65535)
			fin := uint64(0)
			if n == len(b) {
				fin = 1
			}
			out = append(out, Val{c: fin}, Val{c: uint64(n & 255)}, Val{c: uint64(n >> 8)}, Val{c: uint64(^n & 255)}, Val{c: uint64(^n >> 8 & 255)})
			out = append(out, b[:n]...)
			b = b[n:]
			if fin == 1 {
				break
			}
		}
		out = append(out, Val{}, Val{}, Val{}, Val{})
		_, err := p.writeTo(z.w, out)
		return err
	}
}

type zlibW struct {
	w    Val
	buf  []Val
	done bool
}

// assertion decides c over all inputs of this path.
func (p *Path) assertion(c *Term, label string) {
	p.w.ex.assertSeen(p, label)
	if c.isConst() && c.k != 0 {
		return
	}
	if v, ok := p.knownVal(c); ok && v {
		return
	}
	if p.replaying() {
		switch p.next() {
		case dProved:
			p.fact(c)
			return
		case dViolated:
			p.assumeQuiet(c)
			return
		}
		panic(pathEnd{"replay mismatch (assert)"})
	}
	var m *Model
	if c.isConst() || p.model.Eval(c) == 0 {
		m = p.model
	} else {
		r, mm := p.check(p.tb.Not(c))
		switch r {
		case Unsat:
			p.dec(dProved)
			p.fact(c)
			return
		case Unknown:
			p.incompl++
			p.w.ex.noteUnknown(p, label)
			p.dec(dProved) // undecided; recorded as inconclusive
			return
		}
		m = mm
	}
	p.w.ex.violation(p, label, "", m)
	p.abortMerge("violated assertion")
	p.dec(dViolated)
	p.assumeQuiet(c)
}

func (p *Path) assumeQuiet(c *Term) {
	if p.replaying() {
		if c.isConst() && c.k == 0 {
			panic(pathEnd{"violated"})
		}
		p.addPC(c)
		return
	}
	if c.isConst() {
		panic(pathEnd{"violated"})
	}
	if p.model.Eval(c) == 0 {
		r, m := p.check(c)
		if r != Sat {
			panic(pathEnd{"violated"})
		}
		p.model = m
	}
	p.addPC(c)
}

// closeTo decides |got-want| <= tol.
func (p *Path) closeTo(got, want Val, tol float64, label string) {
	_, ga := got.p.(*Aff)
	_, wa := want.p.(*Aff)
	if !ga && !wa {
		g, w := p.toTerm(got, SF64), p.toTerm(want, SF64)
		d := p.tb.FUn(OFAbs, 0, p.tb.FBin(OFSub, g, w))
		p.assertion(p.tb.FCmp(OFLe, d, p.tb.FPc(SF64, b64(tol))), label)
		return
	}
	g, w := affOf(got, SF64), affOf(want, SF64)
	if g == nil || w == nil {
		panic(unsupported("Close on mixed values"))
	}
	d := affLin(g, 1, w, -1)
	p.rv.fin(d, SF64, false)
	lim := tol - d.err
	if lim <= 0 {
		// the error bound hides the tolerance, a difference beyond both still counts
		lim = tol + d.err
		hi := *d
		hi.c -= lim
		lo := affScale(d, -1)
		lo.c -= lim
		p.rv.fin(lo, SF64, false)
		ok := p.tb.And(p.realAtom(&hi, 1), p.realAtom(lo, 1))
		if !ok.isConst() || ok.k == 0 {
			p.assertion(ok, label)
		}
		panic(unsupported(fmt.Sprintf("tolerance %g below rounding error %g (%s)", tol, d.err, label)))
	}
	hi := *d
	hi.c -= lim
	lo := affScale(d, -1)
	lo.c -= lim
	p.assertion(p.tb.And(p.realAtom(&hi, 1), p.realAtom(lo, 1)), label)
}
