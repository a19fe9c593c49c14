package main

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"slices"
	"sort"
	"strings"
)

// Aff is an affine form over real-valued inputs plus an accumulated bound on
// the floating-point rounding error: the value computed by the code lies in
// [form-err, form+err]. Used for linear float kernels; decided in linear real
// arithmetic.
type Aff struct {
	c     float64
	vs    []affT // sorted by variable index
	err   float64
	bound float64 // max |form|
}

type affT struct {
	v int32
	a float64
}

type realVar struct {
	name   string
	lo, hi float64
	mono   []int32 // a product of earlier variables (sorted, with repetition)
}

// realVars is per path (owned by Path); index = position.
type realVars struct {
	vars []realVar
}

func (rv *realVars) add(name string, lo, hi float64) int32 {
	rv.vars = append(rv.vars, realVar{name: name, lo: lo, hi: hi})
	return int32(len(rv.vars) - 1)
}

// monomial gives the variable that stands for a product of variables.
func (p *Path) monomial(a, b int32) int32 {
	base := func(i int32) []int32 {
		if m := p.rv.vars[i].mono; m != nil {
			return m
		}
		return []int32{i}
	}
	m := append(append([]int32{}, base(a)...), base(b)...)
	sort.Slice(m, func(i, j int) bool { return m[i] < m[j] })
	if len(m) > 6 {
		panic(unsupported("product of more than six real-valued inputs"))
	}
	for i := range p.rv.vars {
		if slices.Equal(p.rv.vars[i].mono, m) {
			return int32(i)
		}
	}
	lo, hi := 1.0, 1.0
	q := big.NewRat(1, 1)
	for i := 0; i < len(m); {
		j := i
		v := p.rv.vars[m[i]]
		l, h := 1.0, 1.0
		for ; j < len(m) && m[j] == m[i]; j++ {
			if x := p.model.rl[fmt.Sprintf("r%d", m[i])]; x != nil {
				q.Mul(q, x)
			} else {
				q.SetInt64(0)
			}
		}
		n := float64(j - i)
		l, h = math.Pow(v.lo, n), math.Pow(v.hi, n)
		if (j-i)%2 == 0 {
			if l > h {
				l, h = h, l
			}
			if v.lo < 0 && v.hi > 0 {
				l = 0
			}
		}
		c := []float64{lo * l, lo * h, hi * l, hi * h}
		lo, hi = slices.Min(c), slices.Max(c)
		i = j
	}
	// the bounds themselves were computed with rounding
	pad := (math.Abs(lo) + math.Abs(hi)) * eps64
	idx := p.rv.add("", lo-pad, hi+pad)
	p.rv.vars[idx].mono = m
	mm := p.model.clone()
	mm.rl[fmt.Sprintf("r%d", idx)] = q
	p.model = mm
	return idx
}

// affMul multiplies two forms with variables.
func (p *Path) affMul(a, b *Aff) *Aff {
	if len(a.vs)*len(b.vs) > 600 {
		panic(unsupported("product of two long real-valued forms"))
	}
	sum := map[int32]float64{}
	for _, t := range a.vs {
		sum[t.v] += t.a * b.c
	}
	for _, t := range b.vs {
		sum[t.v] += t.a * a.c
	}
	for _, t := range a.vs {
		for _, u := range b.vs {
			sum[p.monomial(t.v, u.v)] += t.a * u.a
		}
	}
	r := &Aff{c: a.c * b.c, err: a.err*b.bound + b.err*a.bound + a.err*b.err}
	for v, k := range sum {
		if k != 0 {
			r.vs = append(r.vs, affT{v, k})
		}
	}
	sort.Slice(r.vs, func(i, j int) bool { return r.vs[i].v < r.vs[j].v })
	return r
}

func affConst(v float64) *Aff { return &Aff{c: v, bound: math.Abs(v)} }

const eps64 = 1.0 / (1 << 48) // generous: covers the engine's own float64 arithmetic

func (p *realVars) fin(a *Aff, w Sort, round bool) *Aff {
	b := math.Abs(a.c)
	for _, t := range a.vs {
		rv := &p.vars[t.v]
		b += math.Abs(t.a) * math.Max(math.Abs(rv.lo), math.Abs(rv.hi))
	}
	a.bound = b
	a.err += b * eps64
	if round {
		if w == SF32 {
			a.err += (b+a.err)*(1.0/(1<<24)) + 1e-45
		} else {
			a.err += (b+a.err)*(1.0/(1<<52)) + 1e-300
		}
	}
	return a
}

func affLin(x *Aff, kx float64, y *Aff, ky float64) *Aff {
	r := &Aff{c: kx*x.c + ky*y.c, err: math.Abs(kx)*x.err + math.Abs(ky)*y.err}
	r.vs = make([]affT, 0, len(x.vs)+len(y.vs))
	i, j := 0, 0
	for i < len(x.vs) || j < len(y.vs) {
		switch {
		case j == len(y.vs) || i < len(x.vs) && x.vs[i].v < y.vs[j].v:
			r.vs = append(r.vs, affT{x.vs[i].v, kx * x.vs[i].a})
			i++
		case i == len(x.vs) || y.vs[j].v < x.vs[i].v:
			r.vs = append(r.vs, affT{y.vs[j].v, ky * y.vs[j].a})
			j++
		default:
			if a := kx*x.vs[i].a + ky*y.vs[j].a; a != 0 {
				r.vs = append(r.vs, affT{x.vs[i].v, a})
			}
			i++
			j++
		}
	}
	return r
}

func affScale(x *Aff, k float64) *Aff {
	r := &Aff{c: k * x.c, err: math.Abs(k) * x.err}
	if k != 0 {
		r.vs = make([]affT, len(x.vs))
		for i, t := range x.vs {
			r.vs[i] = affT{t.v, k * t.a}
		}
	}
	return r
}

func ratStr(v float64) string {
	r := new(big.Rat)
	if r.SetFloat64(v) == nil {
		return "0.0"
	}
	neg := r.Sign() < 0
	if neg {
		r.Neg(r)
	}
	s := ""
	if r.IsInt() {
		s = r.Num().String() + ".0"
	} else {
		s = fmt.Sprintf("(/ %s.0 %s.0)", r.Num(), r.Denom())
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (a *Aff) smtWith(names func(int32) string) string {
	if len(a.vs) == 0 {
		return ratStr(a.c)
	}
	var sb strings.Builder
	sb.WriteString("(+ ")
	sb.WriteString(ratStr(a.c))
	for _, t := range a.vs {
		sb.WriteString(" (* ")
		sb.WriteString(ratStr(t.a))
		sb.WriteString(" ")
		sb.WriteString(names(t.v))
		sb.WriteString(")")
	}
	sb.WriteString(")")
	return sb.String()
}

// real variables are named r<idx>; bounds are asserted when declared.
func (a *Aff) smt() string { return a.smtWith(func(i int32) string { return fmt.Sprintf("r%d", i) }) }

func (a *Aff) evalRat(m *Model) *big.Rat {
	s := new(big.Rat)
	s.SetFloat64(a.c)
	for _, t := range a.vs {
		x := m.rl[fmt.Sprintf("r%d", t.v)]
		if x == nil {
			continue
		}
		k := new(big.Rat)
		k.SetFloat64(t.a)
		s.Add(s, k.Mul(k, x))
	}
	return s
}

// affBits is the bit pattern of a real-valued float; only its sign may be changed.
type affBits struct {
	a   *Aff
	w   Sort
	abs bool
	neg bool // applied after abs
}

func (b *affBits) mask(tok token.Token, y Val) Val {
	sign := uint64(1) << 31
	if b.w == SF64 {
		sign = 1 << 63
	}
	if y.p == nil {
		n := *b
		switch {
		case tok == token.AND && y.c == sign-1 || tok == token.AND_NOT && y.c == sign:
			n.abs, n.neg = true, false
			return Val{p: &n}
		case tok == token.XOR && y.c == sign:
			n.neg = !n.neg
			return Val{p: &n}
		case tok == token.OR && y.c == sign:
			n.abs, n.neg = true, true
			return Val{p: &n}
		}
	}
	panic(unsupported("real-valued operand in bit-precise operation"))
}

func (p *Path) fromAffBits(b *affBits) Val {
	r := b.a
	if b.abs {
		r = p.affAbs(r, b.w)
	}
	if b.neg {
		r = p.rv.fin(affScale(r, -1), b.w, false)
	}
	return Val{p: r}
}

func (p *Path) affAbs(a *Aff, w Sort) *Aff {
	d := affLin(a, 1, affConst(0), 1)
	p.rv.fin(d, w, false)
	if p.branch(p.realAtom(d, 0)) {
		return p.rv.fin(affScale(a, -1), w, false)
	}
	return a
}
