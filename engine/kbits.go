package main

// Known bits of terms along a path: facts of the form "these bits of t are v" let
// later terms built from the same inputs fold to constants.

type kbits struct{ mask, val uint64 }

type kbUndo struct {
	t   *Term
	old kbits
}

func (p *Path) learn(t *Term, m, v uint64) {
	switch t.op {
	case OConst:
		return
	case OConcat:
		lw := t.args[1].sort
		p.learn(t.args[1], m&mask(lw), v&mask(lw))
		p.learn(t.args[0], m>>lw, v>>lw)
		return
	case OExtract:
		p.learn(t.args[0], m<<t.k, v<<t.k)
		return
	}
	if m == 0 {
		return
	}
	old := p.kb[t]
	n := kbits{old.mask | m, old.val | v&m&^old.mask}
	if n == old {
		return
	}
	if p.kb == nil {
		p.kb = map[*Term]kbits{}
	}
	p.kbl = append(p.kbl, kbUndo{t, old})
	p.kb[t] = n
}

func (p *Path) learnFact(c *Term) {
	neg := false
	if c.op == OBNot {
		c, neg = c.args[0], true
	}
	switch c.op {
	case OEq:
		x, y := c.args[0], c.args[1]
		if x.isConst() {
			x, y = y, x
		}
		if !y.isConst() || !x.sort.isBV() {
			return
		}
		if !neg {
			p.learn(x, mask(x.sort), y.k)
		} else if x.sort == 1 {
			p.learn(x, 1, y.k^1)
		}
	case OUlt, OUle:
		x, y := c.args[0], c.args[1]
		lt := c.op == OUlt
		if neg { // !(x<y) = y<=x
			x, y, lt = y, x, !lt
		}
		if y.isConst() && !x.isConst() {
			k := y.k
			if lt {
				if k == 0 {
					return
				}
				k--
			}
			m := mask(x.sort)
			for k != 0 {
				k >>= 1
				m <<= 1
			}
			p.learn(x, m&mask(x.sort), 0)
		}
	}
}

func (p *Path) kbUndoTo(n int) {
	for i := len(p.kbl) - 1; i >= n; i-- {
		u := p.kbl[i]
		if u.old.mask == 0 {
			delete(p.kb, u.t)
		} else {
			p.kb[u.t] = u.old
		}
	}
	p.kbl = p.kbl[:n]
}

// norm rewrites t using the facts of the path.
func (p *Path) norm(t *Term) *Term {
	switch t.op {
	case OConst:
		return t
	case OConcat:
		hi, lo := p.norm(t.args[0]), p.norm(t.args[1])
		if hi != t.args[0] || lo != t.args[1] {
			return p.tb.Concat(hi, lo)
		}
		return t
	case OExtract:
		b, ok := p.kb[t.args[0]]
		if !ok {
			return t
		}
		return p.splice(t.args[0], t.k, t.sort, b)
	case OIte:
		if v, ok := p.knownVal(t.args[0]); ok {
			if v {
				return p.norm(t.args[1])
			}
			return p.norm(t.args[2])
		}
	case OEq:
		x, y := p.norm(t.args[0]), p.norm(t.args[1])
		if x != t.args[0] || y != t.args[1] {
			return p.tb.Eq(x, y)
		}
		return t
	}
	if t.sort.isBV() {
		if b, ok := p.kb[t]; ok {
			return p.splice(t, 0, t.sort, b)
		}
	}
	return t
}

// splice is bits lo..lo+w of t with its known bits replaced by constants.
func (p *Path) splice(t *Term, lo uint64, w Sort, b kbits) *Term {
	m := b.mask >> lo & mask(w)
	if m == 0 {
		return p.tb.Extract(t, lo, w)
	}
	v := b.val >> lo
	if m == mask(w) {
		return p.tb.BV(w, v)
	}
	var r *Term
	for i := uint64(0); i < uint64(w); {
		kn := m>>i&1 != 0
		j := i
		for j < uint64(w) && (m>>j&1 != 0) == kn {
			j++
		}
		var x *Term
		if kn {
			x = p.tb.BV(Sort(j-i), v>>i)
		} else {
			x = p.tb.mkExt(t, lo+i, Sort(j-i))
		}
		if r == nil {
			r = x
		} else {
			r = p.tb.Concat(x, r)
		}
		i = j
	}
	return r
}

func (tb *TB) mkExt(t *Term, lo uint64, w Sort) *Term { return tb.Extract(t, lo, w) }
