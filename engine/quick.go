package main

// Cheap satisfiability witnesses: a branch condition over a few input bits can often be
// met by changing just these bits in the current model. The changed model is checked by
// evaluating every path condition it can affect; only then does it replace a solver query.

var supAll = []int32{-1}

// support is the list of variable ids t depends on (supAll when large or not purely BV).
func (t *Term) support() []int32 {
	if t.sup != nil {
		return t.sup
	}
	switch t.op {
	case OConst:
		t.sup = []int32{}
		return t.sup
	case OVar:
		t.sup = []int32{int32(t.id)}
		return t.sup
	case OReal, OUF:
		t.sup = supAll
		return t.sup
	}
	var out []int32
	for _, a := range t.args {
		s := a.support()
		if len(s) == 1 && s[0] == -1 {
			t.sup = supAll
			return t.sup
		}
		out = mergeSup(out, s)
		if len(out) > 64 {
			t.sup = supAll
			return t.sup
		}
	}
	if out == nil {
		out = []int32{}
	}
	if len(t.args) == 0 {
		out = supAll
	}
	t.sup = out
	return out
}

func mergeSup(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i] < b[j]:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	return out
}

type patch struct {
	v    *Term
	bits uint64
}

type patcher struct {
	m  *Model
	ps []patch
}

func (q *patcher) val(v *Term) uint64 {
	for _, x := range q.ps {
		if x.v == v {
			return x.bits
		}
	}
	return q.m.bv[v.name]
}

func (q *patcher) set(v *Term, bits uint64) {
	for i := range q.ps {
		if q.ps[i].v == v {
			q.ps[i].bits = bits
			return
		}
	}
	q.ps = append(q.ps, patch{v, bits})
}

func (q *patcher) bits(t *Term, m, v uint64) bool {
	if m == 0 {
		return true
	}
	switch t.op {
	case OConst:
		return t.k&m == v&m
	case OVar:
		if !t.sort.isBV() {
			return false
		}
		q.set(t, q.val(t)&^m|v&m)
		return true
	case OExtract:
		return q.bits(t.args[0], m<<t.k, v<<t.k)
	case OConcat:
		lw := t.args[1].sort
		return q.bits(t.args[1], m&mask(lw), v&mask(lw)) && q.bits(t.args[0], m>>lw, v>>lw)
	}
	return false
}

func (q *patcher) cond(c *Term, neg bool) bool {
	switch c.op {
	case OVar:
		if c.sort != SBool {
			return false
		}
		b := uint64(1)
		if neg {
			b = 0
		}
		q.set(c, b)
		return true
	case OBNot:
		return q.cond(c.args[0], !neg)
	case OBAnd:
		if neg {
			return q.cond(c.args[0], true)
		}
		return q.cond(c.args[0], false) && q.cond(c.args[1], false)
	case OBOr:
		if neg {
			return q.cond(c.args[0], true) && q.cond(c.args[1], true)
		}
		return q.cond(c.args[0], false)
	case OEq:
		x, y := c.args[0], c.args[1]
		if x.isConst() {
			x, y = y, x
		}
		if !x.sort.isBV() || !y.isConst() {
			return false
		}
		m := mask(x.sort)
		if !neg {
			return q.bits(x, m, y.k)
		}
		free := m &^ (x.zeros | x.ones)
		free &= -free
		return free != 0 && q.bits(x, free, y.k^free)
	case OUlt, OUle:
		x, y := c.args[0], c.args[1]
		lt := c.op == OUlt
		if neg {
			x, y, lt = y, x, !lt
		}
		if y.isConst() {
			if lt && y.k == 0 {
				return false
			}
			return q.bits(x, mask(x.sort)&^x.zeros, 0)
		}
		if x.isConst() {
			return q.bits(y, mask(y.sort)&^y.zeros, mask(y.sort))
		}
	}
	return false
}

// quickSat returns a model of pc and c obtained from the current model, or nil.
func (p *Path) quickSat(c *Term) *Model {
	if len(c.support()) == 1 && c.sup[0] == -1 {
		return nil
	}
	q := &patcher{m: p.model}
	if !q.cond(c, false) || len(q.ps) == 0 {
		return nil
	}
	t := &Model{bv: map[string]uint64{}, mm: map[*Term]uint64{}}
	t.base = p.model
	for _, x := range q.ps {
		t.bv[x.v.name] = x.bits
	}
	if t.Eval(c) == 0 {
		return nil
	}
	hit := func(s []int32) bool {
		if len(s) == 1 && s[0] == -1 {
			return true
		}
		for _, x := range q.ps {
			for _, v := range s {
				if v == int32(x.v.id) {
					return true
				}
			}
		}
		return false
	}
	for _, f := range p.pc {
		s := f.support()
		if !hit(s) {
			continue
		}
		if len(s) == 1 && s[0] == -1 {
			return nil
		}
		if t.Eval(f) == 0 {
			return nil
		}
	}
	n := p.model.clone()
	for _, x := range q.ps {
		n.bv[x.v.name] = x.bits
	}
	stats.quick.Add(1)
	return n
}
