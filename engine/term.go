package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

// Sorts: 0 = Bool, 1..64 = bit-vector of that width, SF32/SF64 = IEEE floats.
type Sort uint8

const (
	SBool Sort = 0
	SF32  Sort = 132
	SF64  Sort = 164
)

func (s Sort) isBV() bool { return s >= 1 && s <= 64 }
func (s Sort) isFP() bool { return s == SF32 || s == SF64 }
func (s Sort) smt() string {
	switch {
	case s == SBool:
		return "Bool"
	case s == SF32:
		return "(_ FloatingPoint 8 24)"
	case s == SF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OAnd
	OOr
	OXor
	ONot
	OConcat
	OExtract // k = lo, width = sort
	OSext
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
	OIte
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFEq
	OFLt
	OFLe
	OFFromS
	OFFromU
	OFToS // saturating semantics handled by caller; only valid in range; k unused
	OFFromBits
	OFCvt
	OFRti // round to integral; k: 0 RTZ(trunc) 1 floor 2 ceil 3 RNE 4 RNA
	OFIsNaN
	OReal // linear real atom: payload aff, meaning aff < 0 (k=0) or aff <= 0 (k=1)
	OUF   // uninterpreted function, name
)

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", OConcat: "concat",
	OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN"}

type Term struct {
	op    Op
	sort  Sort
	id    int32
	k     uint64
	args  []*Term
	zeros uint64 // known-zero bits (BV)
	ones  uint64 // known-one bits (BV)
	name  string
	aff   *Aff
	size  int32 // saturating DAG-ish size estimate
	sup   []int32
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

// TB is a per-worker term builder (hash-consing, not thread safe).
type TB struct {
	tab    map[uint64][]*Term
	nextID int32
	True   *Term
	False  *Term
	vars   map[string]*Term
	ext    map[extKey]*Term
}

type extKey struct {
	x  *Term
	lo uint64
	w  Sort
}

func NewTB() *TB {
	tb := &TB{tab: make(map[uint64][]*Term, 1<<12), vars: map[string]*Term{}, ext: map[extKey]*Term{}}
	tb.False = tb.mk(OConst, SBool, 0, nil)
	tb.True = tb.mk(OConst, SBool, 1, nil)
	return tb
}

func (tb *TB) mkN(op Op, s Sort, k uint64, name string, aff *Aff, args ...*Term) *Term {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(s)*0xC2B2AE3D27D4EB4F ^ k*0x165667B19E3779F9
	for _, a := range args {
		h = (h ^ uint64(a.id)) * 0x100000001b3
		h ^= h >> 29
	}
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 0x100000001b3
	}
	if aff == nil {
	bucket:
		for _, t := range tb.tab[h] {
			if t.op != op || t.sort != s || t.k != k || t.name != name || len(t.args) != len(args) || t.aff != nil {
				continue
			}
			for i := range args {
				if t.args[i] != args[i] {
					continue bucket
				}
			}
			return t
		}
	}
	t := &Term{op: op, sort: s, k: k, name: name, aff: aff, id: tb.nextID}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	tb.nextID++
	sz := int32(1)
	for _, a := range args {
		sz += a.size
		if sz > 1<<28 {
			sz = 1 << 28
		}
	}
	t.size = sz
	t.knownBits()
	tb.tab[h] = append(tb.tab[h], t)
	return t
}

func (tb *TB) mk(op Op, s Sort, k uint64, args []*Term) *Term {
	return tb.mkN(op, s, k, "", nil, args...)
}

func (t *Term) isConst() bool { return t.op == OConst }

func (t *Term) umin() uint64 { return t.ones }
func (t *Term) umax() uint64 { return ^t.zeros & mask(t.sort) }

func (t *Term) knownBits() {
	if !t.sort.isBV() {
		return
	}
	m := mask(t.sort)
	a := t.args
	switch t.op {
	case OConst:
		t.ones = t.k
		t.zeros = ^t.k & m
	case OAnd:
		t.ones = a[0].ones & a[1].ones
		t.zeros = a[0].zeros | a[1].zeros
	case OOr:
		t.ones = a[0].ones | a[1].ones
		t.zeros = a[0].zeros & a[1].zeros
	case OXor:
		t.ones = a[0].ones&a[1].zeros | a[0].zeros&a[1].ones
		t.zeros = a[0].ones&a[1].ones | a[0].zeros&a[1].zeros
	case ONot:
		t.ones, t.zeros = a[0].zeros, a[0].ones
	case OConcat:
		lw := a[1].sort
		t.ones = a[0].ones<<lw | a[1].ones
		t.zeros = a[0].zeros<<lw | a[1].zeros
	case OExtract:
		t.ones = a[0].ones >> t.k & m
		t.zeros = a[0].zeros >> t.k & m
	case OSext:
		w := a[0].sort
		hi := m &^ mask(w)
		t.ones, t.zeros = a[0].ones, a[0].zeros
		if a[0].ones>>(w-1)&1 == 1 {
			t.ones |= hi
		} else if a[0].zeros>>(w-1)&1 == 1 {
			t.zeros |= hi
		}
	case OIte:
		t.ones = a[1].ones & a[2].ones
		t.zeros = a[1].zeros & a[2].zeros
	case OAdd, OMul, OSub:
		// trailing zeros and leading zeros from maxima
		tz := min(bits.TrailingZeros64(^a[0].zeros), bits.TrailingZeros64(^a[1].zeros))
		if t.op == OMul {
			tz = bits.TrailingZeros64(^a[0].zeros) + bits.TrailingZeros64(^a[1].zeros)
		}
		if tz > 0 {
			if tz >= int(t.sort) {
				t.zeros = m
			} else {
				t.zeros |= mask(Sort(tz)) & m
			}
		}
		var mx uint64
		ok := false
		if t.op == OAdd {
			s, c := bits.Add64(a[0].umax(), a[1].umax(), 0)
			ok = c == 0 && s <= m
			mx = s
		} else if t.op == OMul {
			h, l := bits.Mul64(a[0].umax(), a[1].umax())
			ok = h == 0 && l <= m
			mx = l
		}
		if ok {
			lz := bits.LeadingZeros64(mx)
			t.zeros |= m &^ (mask(Sort(64 - lz)))
			if lz == 64 {
				t.zeros = m
			}
		}
	case OUDiv:
		if a[1].umin() > 0 {
			mx := a[0].umax() / a[1].umin()
			lz := bits.LeadingZeros64(mx)
			if lz == 64 {
				t.zeros = m
			} else {
				t.zeros |= m &^ mask(Sort(64-lz))
			}
		}
	case OURem:
		if a[1].umin() > 0 {
			mx := min(a[0].umax(), a[1].umax()-1)
			lz := bits.LeadingZeros64(mx)
			if lz == 64 {
				t.zeros = m
			} else {
				t.zeros |= m &^ mask(Sort(64-lz))
			}
		}
	case OLshr:
		mx := a[0].umax() >> min(a[1].umin(), 63)
		lz := bits.LeadingZeros64(mx)
		if lz == 64 {
			t.zeros = m
		} else {
			t.zeros |= m &^ mask(Sort(64-lz))
		}
	}
}

func (tb *TB) BV(w Sort, v uint64) *Term { return tb.mk(OConst, w, v&mask(w), nil) }
func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}
func (tb *TB) FPc(s Sort, bitsv uint64) *Term { return tb.mk(OConst, s, bitsv, nil) }

func (tb *TB) Var(name string, s Sort) *Term {
	if v, ok := tb.vars[name]; ok && v.sort == s {
		return v
	}
	v := tb.mkN(OVar, s, 0, name, nil)
	tb.vars[name] = v
	return v
}

func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func foldBV(op Op, w Sort, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		if y == 0 {
			if sx(x, w) < 0 {
				return 1, true
			}
			return m, true
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		if y == 0 {
			return x, true
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	case OAnd:
		return x & y, true
	case OOr:
		return x | y, true
	case OXor:
		return x ^ y, true
	}
	return 0, false
}

func (tb *TB) Concat(hi, lo *Term) *Term {
	w := hi.sort + lo.sort
	if hi.isConst() && lo.isConst() {
		return tb.BV(w, hi.k<<lo.sort|lo.k)
	}
	// right-nested normal form
	if hi.op == OConcat {
		return tb.Concat(hi.args[0], tb.Concat(hi.args[1], lo))
	}
	// merge adjacent extracts / consts
	first, rest := lo, (*Term)(nil)
	if lo.op == OConcat {
		first, rest = lo.args[0], lo.args[1]
	}
	var merged *Term
	if hi.op == ONot && first.op == ONot {
		// the complement of adjacent extracts
		if x, hl := extBase(hi.args[0]); x != nil {
			if y, ll := extBase(first.args[0]); y == x && ll+uint64(first.sort) == hl {
				merged = tb.NotBV(tb.Extract(x, ll, hi.sort+first.sort))
			}
		}
	} else if hi.isConst() && first.isConst() {
		merged = tb.BV(hi.sort+first.sort, hi.k<<first.sort|first.k)
	} else if x, hl := extBase(hi); x != nil {
		if y, ll := extBase(first); y == x && ll+uint64(first.sort) == hl {
			merged = tb.Extract(x, ll, hi.sort+first.sort)
		}
	}
	if merged != nil {
		if rest == nil {
			return merged
		}
		return tb.Concat(merged, rest)
	}
	return tb.mk(OConcat, w, 0, []*Term{hi, lo})
}

func extBase(t *Term) (*Term, uint64) {
	if t.op == OExtract {
		return t.args[0], t.k
	}
	if t.op == OConst {
		return nil, 0
	}
	return t, 0
}

func (tb *TB) Extract(x *Term, lo uint64, w Sort) *Term {
	if lo == 0 && w == x.sort {
		return x
	}
	if x.isConst() {
		return tb.BV(w, x.k>>lo)
	}
	m := mask(w)
	if (x.zeros|x.ones)>>lo&m == m {
		return tb.BV(w, x.ones>>lo)
	}
	switch x.op {
	case OExtract:
		return tb.Extract(x.args[0], x.k+lo, w)
	case OConcat:
		lw := uint64(x.args[1].sort)
		if lo >= lw {
			return tb.Extract(x.args[0], lo-lw, w)
		}
		if lo+uint64(w) <= lw {
			return tb.Extract(x.args[1], lo, w)
		}
		return tb.Concat(tb.Extract(x.args[0], 0, Sort(lo+uint64(w)-lw)), tb.Extract(x.args[1], lo, Sort(lw-lo)))
	case OAnd, OOr, OXor:
		k := extKey{x, lo, w}
		r := tb.ext[k]
		if r == nil {
			r = tb.bitop(x.op, tb.Extract(x.args[0], lo, w), tb.Extract(x.args[1], lo, w))
			tb.ext[k] = r
		}
		return r
	case ONot:
		return tb.NotBV(tb.Extract(x.args[0], lo, w))
	case OSext:
		aw := uint64(x.args[0].sort)
		if lo+uint64(w) <= aw {
			return tb.Extract(x.args[0], lo, w)
		}
		if lo == 0 {
			return tb.Sext(x.args[0], w)
		}
	case OAdd, OSub, OMul:
		if lo == 0 && (w == 32 || w == 16 || w == 8) {
			return tb.Bin(x.op, tb.Extract(x.args[0], 0, w), tb.Extract(x.args[1], 0, w))
		}
	case OShl:
		if x.args[1].isConst() {
			c := x.args[1].k
			if lo >= c {
				return tb.Extract(x.args[0], lo-c, w)
			}
		}
	case OIte:
		if x.args[1].isConst() || x.args[2].isConst() {
			return tb.Ite(x.args[0], tb.Extract(x.args[1], lo, w), tb.Extract(x.args[2], lo, w))
		}
	}
	return tb.mk(OExtract, w, lo, []*Term{x})
}

func (tb *TB) Zext(x *Term, w Sort) *Term {
	if w == x.sort {
		return x
	}
	return tb.Concat(tb.BV(w-x.sort, 0), x)
}

func (tb *TB) Sext(x *Term, w Sort) *Term {
	if w == x.sort {
		return x
	}
	if x.isConst() {
		return tb.BV(w, uint64(sx(x.k, x.sort)))
	}
	sb := uint64(1) << (x.sort - 1)
	if x.zeros&sb != 0 {
		return tb.Zext(x, w)
	}
	if x.op == OSext {
		return tb.Sext(x.args[0], w)
	}
	if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst()) {
		return tb.Ite(x.args[0], tb.Sext(x.args[1], w), tb.Sext(x.args[2], w))
	}
	return tb.mk(OSext, w, 0, []*Term{x})
}

// Resize converts to width w, with sign or zero extension.
func (tb *TB) Resize(x *Term, w Sort, signed bool) *Term {
	if w <= x.sort {
		return tb.Extract(x, 0, w)
	}
	if signed {
		return tb.Sext(x, w)
	}
	return tb.Zext(x, w)
}

func (tb *TB) NotBV(x *Term) *Term {
	if x.isConst() {
		return tb.BV(x.sort, ^x.k)
	}
	if x.op == ONot {
		return x.args[0]
	}
	return tb.mk(ONot, x.sort, 0, []*Term{x})
}

// boundaries of a concat structure
func pieces(t *Term, out []*Term) []*Term {
	if t.op == OConcat {
		out = pieces(t.args[0], out)
		return pieces(t.args[1], out)
	}
	return append(out, t)
}

func (tb *TB) bitop(op Op, x, y *Term) *Term {
	w := x.sort
	if x.isConst() && y.isConst() {
		r, _ := foldBV(op, w, x.k, y.k)
		return tb.BV(w, r)
	}
	if x.isConst() {
		x, y = y, x
	}
	m := mask(w)
	if x == y {
		if op == OXor {
			return tb.BV(w, 0)
		}
		return x
	}
	if y.isConst() {
		switch {
		case y.k == 0:
			if op == OAnd {
				return y
			}
			return x
		case y.k == m:
			if op == OAnd {
				return x
			}
			if op == OOr {
				return y
			}
			return tb.NotBV(x)
		}
	}
	// disjoint pieces: x's possible ones don't meet y's
	if op == OAnd && (x.zeros|y.zeros) == m {
		return tb.BV(w, 0)
	}
	// piecewise evaluation when either is a concat / const with structure
	if x.op == OConcat || y.op == OConcat || y.isConst() {
		cuts := map[uint64]bool{}
		addCuts := func(t *Term) {
			if t.op == OConst {
				prev := t.k & 1
				for i := uint64(1); i < uint64(w); i++ {
					b := t.k >> i & 1
					if b != prev {
						cuts[i] = true
						prev = b
					}
				}
				return
			}
			if t.op != OConcat {
				return
			}
			pos := uint64(w)
			for _, p := range pieces(t, nil) {
				if p.isConst() {
					prev := p.k & 1
					base := pos - uint64(p.sort)
					for i := uint64(1); i < uint64(p.sort); i++ {
						b := p.k >> i & 1
						if b != prev {
							cuts[base+i] = true
							prev = b
						}
					}
				}
				pos -= uint64(p.sort)
				if pos > 0 {
					cuts[pos] = true
				}
			}
		}
		addCuts(x)
		addCuts(y)
		if len(cuts) > 0 && len(cuts) <= 24 {
			cs := make([]uint64, 0, len(cuts)+1)
			for c := range cuts {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
			cs = append(cs, uint64(w))
			// only worthwhile if some piece simplifies
			useful := false
			lo := uint64(0)
			type pr struct{ a, b *Term }
			var prs []pr
			for _, c := range cs {
				pw := Sort(c - lo)
				a, b := tb.Extract(x, lo, pw), tb.Extract(y, lo, pw)
				if a.isConst() || b.isConst() {
					useful = true
				}
				prs = append(prs, pr{a, b})
				lo = c
			}
			if useful {
				var r *Term
				for _, p := range prs {
					q := tb.bitopLeaf(op, p.a, p.b)
					if r == nil {
						r = q
					} else {
						r = tb.Concat(q, r)
					}
				}
				return r
			}
		}
	}
	return tb.bitopLeaf(op, x, y)
}

func (tb *TB) bitopLeaf(op Op, x, y *Term) *Term {
	w := x.sort
	if x.isConst() && y.isConst() {
		r, _ := foldBV(op, w, x.k, y.k)
		return tb.BV(w, r)
	}
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		if op == OXor {
			return tb.BV(w, 0)
		}
		return x
	}
	m := mask(w)
	if y.isConst() {
		switch {
		case y.k == 0:
			if op == OAnd {
				return y
			}
			return x
		case y.k == m:
			if op == OAnd {
				return x
			}
			if op == OOr {
				return y
			}
			return tb.NotBV(x)
		}
		if x.op == OIte && x.args[1].isConst() && x.args[2].isConst() {
			return tb.Ite(x.args[0], tb.bitop(op, x.args[1], y), tb.bitop(op, x.args[2], y))
		}
	} else if y.id < x.id {
		x, y = y, x
	}
	return tb.mk(op, w, 0, []*Term{x, y})
}

// Bin builds a bit-vector binary operation.
func (tb *TB) Bin(op Op, x, y *Term) *Term {
	w := x.sort
	if x.isConst() && y.isConst() {
		if r, ok := foldBV(op, w, x.k, y.k); ok {
			return tb.BV(w, r)
		}
	}
	switch op {
	case OAnd, OOr, OXor:
		return tb.bitop(op, x, y)
	case OAdd:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			if x.op == OAdd && x.args[1].isConst() {
				return tb.Bin(OAdd, x.args[0], tb.BV(w, x.args[1].k+y.k))
			}
			if x.zeros&y.k == y.k && x.op == OConcat { // no carries possible
				return tb.bitop(OOr, x, y)
			}
			if x.op == OIte && x.args[1].isConst() && x.args[2].isConst() {
				return tb.Ite(x.args[0], tb.Bin(op, x.args[1], y), tb.Bin(op, x.args[2], y))
			}
		} else {
			if x.zeros|y.zeros == mask(w) {
				return tb.bitop(OOr, x, y)
			}
			if x.op == OAdd && x.args[1].isConst() {
				return tb.Bin(OAdd, tb.Bin(OAdd, x.args[0], y), x.args[1])
			}
			if y.op == OAdd && y.args[1].isConst() {
				return tb.Bin(OAdd, tb.Bin(OAdd, x, y.args[0]), y.args[1])
			}
			if x.op == OSub && x.args[1] == y {
				return x.args[0]
			}
			if y.op == OSub && y.args[1] == x {
				return y.args[0]
			}
			if y.id < x.id {
				x, y = y, x
			}
		}
	case OSub:
		if x == y {
			return tb.BV(w, 0)
		}
		if y.isConst() {
			return tb.Bin(OAdd, x, tb.BV(w, -y.k))
		}
		if x.op == OAdd {
			if x.args[0] == y {
				return x.args[1]
			}
			if x.args[1] == y {
				return x.args[0]
			}
			if x.args[1].isConst() {
				return tb.Bin(OAdd, tb.Bin(OSub, x.args[0], y), x.args[1])
			}
		}
		if y.op == OAdd && y.args[1].isConst() {
			return tb.Bin(OAdd, tb.Bin(OSub, x, y.args[0]), tb.BV(w, -y.args[1].k))
		}
		if x.isConst() && x.k == 0 && y.op == OSub {
			return tb.Bin(OSub, y.args[1], y.args[0])
		}
	case OMul:
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			switch {
			case y.k == 0:
				return y
			case y.k == 1:
				return x
			case y.k&(y.k-1) == 0:
				return tb.Bin(OShl, x, tb.BV(w, uint64(bits.TrailingZeros64(y.k))))
			}
			if x.op == OIte && x.args[1].isConst() && x.args[2].isConst() {
				return tb.Ite(x.args[0], tb.Bin(op, x.args[1], y), tb.Bin(op, x.args[2], y))
			}
		} else if y.id < x.id {
			x, y = y, x
		}
	case OShl:
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			if y.k >= uint64(w) {
				return tb.BV(w, 0)
			}
			return tb.Concat(tb.Extract(x, 0, w-Sort(y.k)), tb.BV(Sort(y.k), 0))
		}
		if x.isConst() && x.k == 0 {
			return x
		}
	case OLshr:
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			if y.k >= uint64(w) {
				return tb.BV(w, 0)
			}
			return tb.Zext(tb.Extract(x, y.k, w-Sort(y.k)), w)
		}
		if x.isConst() && x.k == 0 {
			return x
		}
	case OAshr:
		if x.zeros>>(w-1)&1 == 1 {
			return tb.Bin(OLshr, x, y)
		}
		if y.isConst() {
			if y.k == 0 {
				return x
			}
			k := y.k
			if k >= uint64(w) {
				k = uint64(w) - 1
			}
			return tb.Sext(tb.Extract(x, k, w-Sort(k)), w)
		}
	case OUDiv:
		if y.isConst() && y.k != 0 {
			if y.k == 1 {
				return x
			}
			if y.k&(y.k-1) == 0 {
				return tb.Bin(OLshr, x, tb.BV(w, uint64(bits.TrailingZeros64(y.k))))
			}
		}
	case OURem:
		if y.isConst() && y.k != 0 && y.k&(y.k-1) == 0 {
			return tb.bitop(OAnd, x, tb.BV(w, y.k-1))
		}
	case OSDiv:
		if x.zeros>>(w-1)&1 == 1 && y.zeros>>(w-1)&1 == 1 {
			return tb.Bin(OUDiv, x, y)
		}
		if y.isConst() && y.k == 1 {
			return x
		}
	case OSRem:
		if x.zeros>>(w-1)&1 == 1 && y.zeros>>(w-1)&1 == 1 {
			return tb.Bin(OURem, x, y)
		}
	}
	if n := narrowTo(op, x, y); n < w {
		return tb.Zext(tb.Bin(op, tb.Extract(x, 0, n), tb.Extract(y, 0, n)), w)
	}
	return tb.mk(op, w, 0, []*Term{x, y})
}

// narrowTo is the width at which a multiplication or division of small values is exact.
func narrowTo(op Op, x, y *Term) Sort {
	var mx uint64
	switch op {
	case OMul:
		h, l := bits.Mul64(x.umax(), y.umax())
		if h != 0 {
			return 64
		}
		mx = l | x.umax() | y.umax()
	case OUDiv, OURem:
		if y.umin() == 0 {
			return 64
		}
		mx = x.umax() | y.umax()
	default:
		return 64
	}
	n := Sort(64 - bits.LeadingZeros64(mx))
	if n < 1 {
		n = 1
	}
	return n
}

func (tb *TB) Neg(x *Term) *Term { return tb.Bin(OSub, tb.BV(x.sort, 0), x) }

func (tb *TB) Not(x *Term) *Term {
	switch x.op {
	case OConst:
		return tb.Bool(x.k == 0)
	case OBNot:
		return x.args[0]
	case OUlt:
		return tb.Ule(x.args[1], x.args[0])
	case OUle:
		return tb.Ult(x.args[1], x.args[0])
	case OSlt:
		return tb.Sle(x.args[1], x.args[0])
	case OSle:
		return tb.Slt(x.args[1], x.args[0])
	}
	return tb.mk(OBNot, SBool, 0, []*Term{x})
}

func (tb *TB) And(x, y *Term) *Term {
	switch {
	case x == tb.False || y == tb.False:
		return tb.False
	case x == tb.True:
		return y
	case y == tb.True || x == y:
		return x
	}
	if tb.Not(x) == y {
		return tb.False
	}
	if y.id < x.id {
		x, y = y, x
	}
	return tb.mk(OBAnd, SBool, 0, []*Term{x, y})
}

func (tb *TB) Or(x, y *Term) *Term {
	switch {
	case x == tb.True || y == tb.True:
		return tb.True
	case x == tb.False:
		return y
	case y == tb.False || x == y:
		return x
	}
	if tb.Not(x) == y {
		return tb.True
	}
	if y.id < x.id {
		x, y = y, x
	}
	return tb.mk(OBOr, SBool, 0, []*Term{x, y})
}

func (tb *TB) Ite(c, x, y *Term) *Term {
	if c == tb.True || x == y {
		return x
	}
	if c == tb.False {
		return y
	}
	if c.op == OBNot {
		return tb.Ite(c.args[0], y, x)
	}
	if x.sort == SBool {
		if x == tb.True {
			return tb.Or(c, y)
		}
		if x == tb.False {
			return tb.And(tb.Not(c), y)
		}
		if y == tb.True {
			return tb.Or(tb.Not(c), x)
		}
		if y == tb.False {
			return tb.And(c, x)
		}
	}
	if x.op == OIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	// canonical min/max/abs are left to the solver
	return tb.mk(OIte, x.sort, 0, []*Term{c, x, y})
}

func (tb *TB) Eq(x, y *Term) *Term {
	if x == y {
		return tb.True
	}
	if x.sort == SBool {
		if x.isConst() {
			x, y = y, x
		}
		if y == tb.True {
			return x
		}
		if y == tb.False {
			return tb.Not(x)
		}
		if y.id < x.id {
			x, y = y, x
		}
		return tb.mk(OEq, SBool, 0, []*Term{x, y})
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(x.k == y.k)
	}
	if x.ones&y.zeros != 0 || x.zeros&y.ones != 0 {
		return tb.False
	}
	if x.isConst() {
		x, y = y, x
	}
	w := x.sort
	if y.isConst() {
		switch x.op {
		case OAdd:
			if x.args[1].isConst() {
				return tb.Eq(x.args[0], tb.BV(w, y.k-x.args[1].k))
			}
		case OXor:
			if x.args[1].isConst() {
				return tb.Eq(x.args[0], tb.BV(w, y.k^x.args[1].k))
			}
		case ONot:
			return tb.Eq(x.args[0], tb.BV(w, ^y.k))
		case OIte:
			a, b := x.args[1], x.args[2]
			if a.isConst() || b.isConst() {
				return tb.Ite(x.args[0], tb.Eq(a, y), tb.Eq(b, y))
			}
		case OConcat:
			lw := x.args[1].sort
			return tb.And(tb.Eq(x.args[0], tb.BV(x.args[0].sort, y.k>>lw)), tb.Eq(x.args[1], tb.BV(lw, y.k)))
		case OSext:
			aw := x.args[0].sort
			if uint64(sx(y.k&mask(aw), aw))&mask(w) != y.k {
				return tb.False
			}
			return tb.Eq(x.args[0], tb.BV(aw, y.k))
		case OSub:
			if x.args[0].isConst() {
				return tb.Eq(x.args[1], tb.BV(w, x.args[0].k-y.k))
			}
			if y.k == 0 {
				return tb.Eq(x.args[0], x.args[1])
			}
		}
	} else {
		if x.op == OConcat && y.op == OConcat && x.args[0].sort == y.args[0].sort && x.args[0].isConst() && y.args[0].isConst() {
			if x.args[0] != y.args[0] {
				return tb.False
			}
			return tb.Eq(x.args[1], y.args[1])
		}
		if x.op == OSext && y.op == OSext && x.args[0].sort == y.args[0].sort {
			return tb.Eq(x.args[0], y.args[0])
		}
		if x.op == OAdd && y.op == OAdd {
			for i := 0; i < 2; i++ {
				for j := 0; j < 2; j++ {
					if x.args[i] == y.args[j] {
						return tb.Eq(x.args[1-i], y.args[1-j])
					}
				}
			}
		}
		if y.id < x.id {
			x, y = y, x
		}
	}
	return tb.mk(OEq, SBool, 0, []*Term{x, y})
}

func (tb *TB) Ult(x, y *Term) *Term {
	if x == y || x.umin() >= y.umax() {
		return tb.False
	}
	if x.umax() < y.umin() {
		return tb.True
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(x.k < y.k)
	}
	if y.isConst() && y.k == 1 {
		return tb.Eq(x, tb.BV(x.sort, 0))
	}
	if r := tb.cmpNarrow(OUlt, x, y); r != nil {
		return r
	}
	return tb.mk(OUlt, SBool, 0, []*Term{x, y})
}

func (tb *TB) Ule(x, y *Term) *Term {
	if x == y || x.umax() <= y.umin() {
		return tb.True
	}
	if x.umin() > y.umax() {
		return tb.False
	}
	if x.isConst() && y.isConst() {
		return tb.Bool(x.k <= y.k)
	}
	if y.isConst() && y.k == 0 {
		return tb.Eq(x, y)
	}
	if r := tb.cmpNarrow(OUle, x, y); r != nil {
		return r
	}
	return tb.mk(OUle, SBool, 0, []*Term{x, y})
}

// cmpNarrow strips common known-zero high bits, and pushes comparisons with
// constants through constant-armed ites.
func (tb *TB) cmpNarrow(op Op, x, y *Term) *Term {
	w := x.sort
	for _, sw := range [2]bool{false, true} {
		a, b := x, y
		if sw {
			a, b = y, x
		}
		if b.isConst() && a.op == OIte && (a.args[1].isConst() || a.args[2].isConst()) {
			f := func(z *Term) *Term {
				l, r := z, b
				if sw {
					l, r = b, z
				}
				switch op {
				case OUlt:
					return tb.Ult(l, r)
				case OUle:
					return tb.Ule(l, r)
				case OSlt:
					return tb.Slt(l, r)
				default:
					return tb.Sle(l, r)
				}
			}
			return tb.Ite(a.args[0], f(a.args[1]), f(a.args[2]))
		}
	}
	if op == OUlt || op == OUle {
		mx := x.umax() | y.umax()
		n := Sort(64 - bits.LeadingZeros64(mx))
		if n < w && n > 0 {
			a, b := tb.Extract(x, 0, n), tb.Extract(y, 0, n)
			if op == OUlt {
				return tb.Ult(a, b)
			}
			return tb.Ule(a, b)
		}
	}
	return nil
}

func (t *Term) smin() int64 {
	sb := uint64(1) << (t.sort - 1)
	v := t.ones
	if t.zeros&sb == 0 {
		v |= sb
	}
	return sx(v, t.sort)
}
func (t *Term) smax() int64 {
	sb := uint64(1) << (t.sort - 1)
	v := ^t.zeros & mask(t.sort)
	if t.ones&sb == 0 {
		v &^= sb
	}
	return sx(v, t.sort)
}

func (tb *TB) Slt(x, y *Term) *Term {
	if x == y || x.smin() >= y.smax() {
		return tb.False
	}
	if x.smax() < y.smin() {
		return tb.True
	}
	if x.smin() >= 0 && y.smin() >= 0 {
		return tb.Ult(x, y)
	}
	if x.op == OSext && y.op == OSext && x.args[0].sort == y.args[0].sort {
		return tb.Slt(x.args[0], y.args[0])
	}
	if y.isConst() && y.k == 0 { // sign bit
		return tb.Eq(tb.Extract(x, uint64(x.sort-1), 1), tb.BV(1, 1))
	}
	if r := tb.cmpNarrow(OSlt, x, y); r != nil {
		return r
	}
	return tb.mk(OSlt, SBool, 0, []*Term{x, y})
}

func (tb *TB) Sle(x, y *Term) *Term {
	if x == y || x.smax() <= y.smin() {
		return tb.True
	}
	if x.smin() > y.smax() {
		return tb.False
	}
	if x.smin() >= 0 && y.smin() >= 0 {
		return tb.Ule(x, y)
	}
	if x.op == OSext && y.op == OSext && x.args[0].sort == y.args[0].sort {
		return tb.Sle(x.args[0], y.args[0])
	}
	if x.isConst() && x.k == 0 {
		return tb.Eq(tb.Extract(y, uint64(y.sort-1), 1), tb.BV(1, 0))
	}
	if r := tb.cmpNarrow(OSle, x, y); r != nil {
		return r
	}
	return tb.mk(OSle, SBool, 0, []*Term{x, y})
}

// ---------- floating point ----------

func f32(b uint64) float32 { return math.Float32frombits(uint32(b)) }
func f64(b uint64) float64 { return math.Float64frombits(b) }
func b32(f float32) uint64 { return uint64(math.Float32bits(f)) }
func b64(f float64) uint64 { return math.Float64bits(f) }

func foldFP(op Op, s Sort, x, y uint64) uint64 {
	if s == SF32 {
		a, b := f32(x), f32(y)
		switch op {
		case OFAdd:
			return b32(a + b)
		case OFSub:
			return b32(a - b)
		case OFMul:
			return b32(a * b)
		case OFDiv:
			return b32(a / b)
		}
	} else {
		a, b := f64(x), f64(y)
		switch op {
		case OFAdd:
			return b64(a + b)
		case OFSub:
			return b64(a - b)
		case OFMul:
			return b64(a * b)
		case OFDiv:
			return b64(a / b)
		}
	}
	panic("foldFP")
}

func foldFPCmp(op Op, s Sort, x, y uint64) bool {
	var a, b float64
	if s == SF32 {
		a, b = float64(f32(x)), float64(f32(y))
	} else {
		a, b = f64(x), f64(y)
	}
	switch op {
	case OFEq:
		return a == b
	case OFLt:
		return a < b
	case OFLe:
		return a <= b
	}
	panic("foldFPCmp")
}

func fpUn(op Op, s Sort, k uint64, x uint64) uint64 {
	var v float64
	if s == SF32 {
		v = float64(f32(x))
	} else {
		v = f64(x)
	}
	switch op {
	case OFNeg:
		if s == SF32 {
			return x ^ 1<<31
		}
		return x ^ 1<<63
	case OFAbs:
		if s == SF32 {
			return x &^ (1 << 31)
		}
		return x &^ (1 << 63)
	case OFSqrt:
		v = math.Sqrt(v)
	case OFRti:
		switch k {
		case 0:
			v = math.Trunc(v)
		case 1:
			v = math.Floor(v)
		case 2:
			v = math.Ceil(v)
		case 3:
			v = math.RoundToEven(v)
		case 4:
			v = math.Round(v)
		}
	}
	if s == SF32 {
		return b32(float32(v))
	}
	return b64(v)
}

func (tb *TB) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tb.FPc(x.sort, foldFP(op, x.sort, x.k, y.k))
	}
	if (op == OFAdd || op == OFMul) && y.id < x.id {
		x, y = y, x
	}
	return tb.mk(op, x.sort, 0, []*Term{x, y})
}

func (tb *TB) FCmp(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return tb.Bool(foldFPCmp(op, x.sort, x.k, y.k))
	}
	if op == OFEq && y.id < x.id {
		x, y = y, x
	}
	return tb.mk(op, SBool, 0, []*Term{x, y})
}

func (tb *TB) FUn(op Op, k uint64, x *Term) *Term {
	if x.isConst() {
		return tb.FPc(x.sort, fpUn(op, x.sort, k, x.k))
	}
	if op == OFNeg && x.op == OFNeg {
		return x.args[0]
	}
	return tb.mk(op, x.sort, k, []*Term{x})
}

func (tb *TB) FIsNaN(x *Term) *Term {
	if x.isConst() {
		if x.sort == SF32 {
			v := f32(x.k)
			return tb.Bool(v != v)
		}
		v := f64(x.k)
		return tb.Bool(v != v)
	}
	return tb.mk(OFIsNaN, SBool, 0, []*Term{x})
}

func (tb *TB) FFromInt(x *Term, signed bool, s Sort) *Term {
	if x.isConst() {
		return tb.FPc(s, intToF(x.k, x.sort, signed, s))
	}
	op := OFFromU
	if signed {
		op = OFFromS
	}
	return tb.mk(op, s, 0, []*Term{x})
}

func intToF(k uint64, w Sort, signed bool, s Sort) uint64 {
	if signed {
		v := sx(k, w)
		if s == SF32 {
			return b32(float32(v))
		}
		return b64(float64(v))
	}
	if s == SF32 {
		return b32(float32(k))
	}
	return b64(float64(k))
}

func (tb *TB) FCvt(x *Term, s Sort) *Term {
	if x.sort == s {
		return x
	}
	if x.isConst() {
		if s == SF32 {
			return tb.FPc(s, b32(float32(f64(x.k))))
		}
		return tb.FPc(s, b64(float64(f32(x.k))))
	}
	// widening is exact
	if s == SF32 && x.op == OFCvt && x.args[0].sort == SF32 {
		return x.args[0]
	}
	return tb.mk(OFCvt, s, 0, []*Term{x})
}

func (tb *TB) FFromBits(x *Term, s Sort) *Term {
	if x.isConst() {
		return tb.FPc(s, x.k)
	}
	return tb.mk(OFFromBits, s, 0, []*Term{x})
}

// FToS: truncating conversion to signed BV of width w; only meaningful when in
// range (callers guard with an ite).
func (tb *TB) FToS(x *Term, w Sort) *Term {
	if x.isConst() {
		return tb.BV(w, uint64(fToI(x.k, x.sort)))
	}
	return tb.mk(OFToS, w, 0, []*Term{x})
}

func fToI(k uint64, s Sort) int64 {
	var v float64
	if s == SF32 {
		v = float64(f32(k))
	} else {
		v = f64(k)
	}
	if v != v || v >= 9223372036854775808.0 || v < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(v)
}

// ---------- evaluation under a model ----------

type Model struct {
	bv   map[string]uint64
	rl   map[string]*big.Rat
	memo []uint64
	gen  []bool
	mm   map[*Term]uint64 // memo of a patched model
	base *Model           // values of the variables not in bv
}

func NewModel() *Model { return &Model{bv: map[string]uint64{}, rl: map[string]*big.Rat{}} }

func (m *Model) clone() *Model {
	n := NewModel()
	for k, v := range m.bv {
		n.bv[k] = v
	}
	for k, v := range m.rl {
		n.rl[k] = v
	}
	return n
}

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if m.mm != nil {
		if t.op == OVar {
			if v, ok := m.bv[t.name]; ok {
				return v
			}
			return m.base.bv[t.name]
		}
		if v, ok := m.mm[t]; ok {
			return v
		}
		v := m.eval1(t)
		m.mm[t] = v
		return v
	}
	if int(t.id) < len(m.gen) && m.gen[t.id] {
		return m.memo[t.id]
	}
	v := m.eval1(t)
	if int(t.id) >= len(m.gen) {
		n := int(t.id)*5/4 + 64
		g := make([]bool, n)
		copy(g, m.gen)
		mm := make([]uint64, n)
		copy(mm, m.memo)
		m.gen, m.memo = g, mm
	}
	m.gen[t.id] = true
	m.memo[t.id] = v
	return v
}

func (m *Model) eval1(t *Term) uint64 {
	a := t.args
	bb := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		return m.bv[t.name]
	case OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OShl, OLshr, OAshr, OAnd, OOr, OXor:
		r, _ := foldBV(t.op, t.sort, m.Eval(a[0]), m.Eval(a[1]))
		return r
	case ONot:
		return ^m.Eval(a[0]) & mask(t.sort)
	case OConcat:
		return m.Eval(a[0])<<a[1].sort | m.Eval(a[1])
	case OExtract:
		return m.Eval(a[0]) >> t.k & mask(t.sort)
	case OSext:
		return uint64(sx(m.Eval(a[0]), a[0].sort)) & mask(t.sort)
	case OEq:
		return bb(m.Eval(a[0]) == m.Eval(a[1]))
	case OUlt:
		return bb(m.Eval(a[0]) < m.Eval(a[1]))
	case OUle:
		return bb(m.Eval(a[0]) <= m.Eval(a[1]))
	case OSlt:
		return bb(sx(m.Eval(a[0]), a[0].sort) < sx(m.Eval(a[1]), a[1].sort))
	case OSle:
		return bb(sx(m.Eval(a[0]), a[0].sort) <= sx(m.Eval(a[1]), a[1].sort))
	case OBNot:
		return 1 - m.Eval(a[0])
	case OBAnd:
		return m.Eval(a[0]) & m.Eval(a[1])
	case OBOr:
		return m.Eval(a[0]) | m.Eval(a[1])
	case OIte:
		if m.Eval(a[0]) != 0 {
			return m.Eval(a[1])
		}
		return m.Eval(a[2])
	case OFAdd, OFSub, OFMul, OFDiv:
		return foldFP(t.op, t.sort, m.Eval(a[0]), m.Eval(a[1]))
	case OFNeg, OFAbs, OFSqrt, OFRti:
		return fpUn(t.op, t.sort, t.k, m.Eval(a[0]))
	case OFEq, OFLt, OFLe:
		return bb(foldFPCmp(t.op, a[0].sort, m.Eval(a[0]), m.Eval(a[1])))
	case OFIsNaN:
		x := m.Eval(a[0])
		if a[0].sort == SF32 {
			return bb(f32(x) != f32(x))
		}
		return bb(f64(x) != f64(x))
	case OFFromS:
		return intToF(m.Eval(a[0]), a[0].sort, true, t.sort)
	case OFFromU:
		return intToF(m.Eval(a[0]), a[0].sort, false, t.sort)
	case OFToS:
		return uint64(fToI(m.Eval(a[0]), a[0].sort)) & mask(t.sort)
	case OFFromBits:
		return m.Eval(a[0])
	case OFCvt:
		x := m.Eval(a[0])
		if t.sort == SF32 {
			return b32(float32(f64(x)))
		}
		return b64(float64(f32(x)))
	case OReal:
		v := t.aff.evalRat(m)
		if t.k == 0 {
			return bb(v.Sign() < 0)
		}
		return bb(v.Sign() <= 0)
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

// ---------- printing ----------

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func constStr(t *Term) string {
	switch {
	case t.sort == SBool:
		if t.k == 1 {
			return "true"
		}
		return "false"
	case t.sort == SF32:
		return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", t.k>>31&1, t.k>>23&0xff, t.k&(1<<23-1))
	case t.sort == SF64:
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", t.k>>63&1, t.k>>52&0x7ff, t.k&(1<<52-1))
	}
	if t.sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.k)
	}
	return fmt.Sprintf("#b%0*b", int(t.sort), t.k)
}

// body prints the defining expression of a non-leaf term.
func (t *Term) body() string {
	var sb strings.Builder
	a := t.args
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", t.k+uint64(t.sort)-1, t.k, a[0].ref())
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.sort-a[0].sort, a[0].ref())
	case OFFromS:
		fmt.Fprintf(&sb, "(%s RNE %s)", fpTo(t.sort), a[0].ref())
	case OFFromU:
		fmt.Fprintf(&sb, "(%s RNE %s)", strings.Replace(fpTo(t.sort), "to_fp", "to_fp_unsigned", 1), a[0].ref())
	case OFToS:
		fmt.Fprintf(&sb, "((_ fp.to_sbv %d) RTZ %s)", t.sort, a[0].ref())
	case OFFromBits:
		fmt.Fprintf(&sb, "(%s %s)", fpTo(t.sort), a[0].ref())
	case OFCvt:
		fmt.Fprintf(&sb, "(%s RNE %s)", fpTo(t.sort), a[0].ref())
	case OFRti:
		rm := []string{"RTZ", "RTN", "RTP", "RNE", "RNA"}[t.k]
		fmt.Fprintf(&sb, "(fp.roundToIntegral %s %s)", rm, a[0].ref())
	case OReal:
		op := "<"
		if t.k == 1 {
			op = "<="
		}
		fmt.Fprintf(&sb, "(%s %s 0.0)", op, t.aff.smt())
	default:
		n, ok := opName[t.op]
		if !ok {
			panic(fmt.Sprintf("print op %d", t.op))
		}
		sb.WriteString("(" + n)
		for _, x := range a {
			sb.WriteString(" ")
			sb.WriteString(x.ref())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func fpTo(s Sort) string {
	if s == SF32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}
