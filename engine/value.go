package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a Go value during symbolic execution. Scalars are concrete (p == nil,
// bits in c) or symbolic (p is *Term or *Aff). Everything else lives in p; a nil
// p is the type's nil / zero value.
type Val struct {
	c uint64
	p any
}

type Agg struct { // struct or array storage
	e  []Val
	n  int        // length when lazily allocated
	et types.Type // element type for lazy allocation
	st []Sort     // per-field sorts for structs
}

var structSorts = newSyncMap[*types.Struct, []Sort]()

func (a *Agg) sortOf(i int) Sort {
	if a.st != nil {
		return a.st[i]
	}
	if a.et != nil {
		return ti(a.et).sort
	}
	return SOther
}

func (a *Agg) els() []Val {
	if a.e == nil && a.n > 0 {
		a.e = make([]Val, a.n)
		if needsZero(a.et) {
			for i := range a.e {
				a.e[i] = zero(a.et)
			}
		}
	}
	return a.e
}

type SliceV struct {
	a             *Agg
	off, len, cap int
}

type SymStr struct{ b []Val }

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type NativeFn struct {
	name string
	f    func(p *Path, args []Val) Val
}

type MapV struct {
	m    map[any]int // canonical key -> index into ents
	ents []mapEnt
	n    int
}
type mapEnt struct {
	k, v  Val
	alive bool
}

type ChanV struct {
	cap    int
	buf    []Val
	closed bool
	// unbuffered hand-off
	recvWaiting int
	sent, recvd int // only counted for race detection
	et          types.Type
}

type SymPtr struct {
	a    *Agg
	off  int
	n    int
	idx  *Term // within [0,n)
	path []int
}

// OptStr and similar opaque values (formatted text) are plain strings.

const (
	kBool = iota
	kInt
	kFloat
	kString
	kOther
)

const SOther Sort = 255

type tinfo struct {
	kind   int
	sort   Sort
	signed bool
}

var tiCache = newSyncMap[types.Type, tinfo]()

func ti(t types.Type) tinfo {
	if v, ok := tiCache.get(t); ok {
		return v
	}
	v := ti0(t)
	tiCache.put(t, v)
	return v
}

func ti0(t types.Type) tinfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return tinfo{kOther, SOther, false}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return tinfo{kBool, SBool, false}
	case types.Int, types.Int64, types.UntypedInt:
		return tinfo{kInt, 64, true}
	case types.Int8:
		return tinfo{kInt, 8, true}
	case types.Int16:
		return tinfo{kInt, 16, true}
	case types.Int32, types.UntypedRune:
		return tinfo{kInt, 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return tinfo{kInt, 64, false}
	case types.Uint8:
		return tinfo{kInt, 8, false}
	case types.Uint16:
		return tinfo{kInt, 16, false}
	case types.Uint32:
		return tinfo{kInt, 32, false}
	case types.Float32:
		return tinfo{kFloat, SF32, false}
	case types.Float64, types.UntypedFloat:
		return tinfo{kFloat, SF64, false}
	case types.String, types.UntypedString:
		return tinfo{kString, SOther, false}
	}
	return tinfo{kOther, SOther, false}
}

func needsZero(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		st, ok := structSorts.get(u)
		if !ok {
			st = make([]Sort, u.NumFields())
			for i := range st {
				st[i] = ti(u.Field(i).Type()).sort
			}
			structSorts.put(u, st)
		}
		a := &Agg{e: make([]Val, u.NumFields()), st: st}
		for i := range a.e {
			if ft := u.Field(i).Type(); needsZero(ft) {
				a.e[i] = zero(ft)
			}
		}
		return Val{p: a}
	case *types.Array:
		return Val{p: &Agg{n: int(u.Len()), et: u.Elem()}}
	}
	return Val{}
}

// copyVal deep-copies aggregates (value semantics).
func copyVal(v Val) Val {
	if a, ok := v.p.(*Agg); ok {
		if a.e == nil {
			return Val{p: &Agg{n: a.n, et: a.et}}
		}
		n := &Agg{e: make([]Val, len(a.e)), n: a.n, et: a.et, st: a.st}
		for i := range a.e {
			n.e[i] = copyVal(a.e[i])
		}
		return Val{p: n}
	}
	return v
}

func boolVal(b bool) Val {
	if b {
		return Val{c: 1}
	}
	return Val{}
}
func intVal(i int) Val       { return Val{c: uint64(i)} }
func strVal(s string) Val    { return Val{p: s} }
func (v Val) isSym() bool    { _, ok := v.p.(*Term); return ok }
func (v Val) term() *Term    { t, _ := v.p.(*Term); return t }
func (v Val) slice() *SliceV { s, _ := v.p.(*SliceV); return s }
func (v Val) agg() *Agg      { return v.p.(*Agg) }

func strLen(v Val) int {
	switch s := v.p.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	return 0
}

func strBytes(v Val) []Val {
	switch s := v.p.(type) {
	case string:
		out := make([]Val, len(s))
		for i := range out {
			out[i] = Val{c: uint64(s[i])}
		}
		return out
	case *SymStr:
		return s.b
	}
	return nil
}

func mkStr(b []Val) Val {
	for _, x := range b {
		if x.p != nil {
			return Val{p: &SymStr{append([]Val(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.c)
	}
	return Val{p: string(bs)}
}

func goStr(v Val) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func mkSlice(vals []Val) Val {
	return Val{p: &SliceV{a: &Agg{e: vals, n: len(vals)}, len: len(vals), cap: len(vals)}}
}

func (v Val) String() string {
	switch x := v.p.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.c))
	case *Term:
		return "sym:" + termStr(x, 4)
	case string:
		return fmt.Sprintf("%q", x)
	case *Iface:
		return fmt.Sprintf("iface(%v,%v)", x.t, x.v)
	case *Agg:
		var sb strings.Builder
		sb.WriteString("{")
		for i, e := range x.e {
			if i > 8 {
				sb.WriteString("..")
				break
			}
			sb.WriteString(e.String() + " ")
		}
		return sb.String() + "}"
	}
	return fmt.Sprintf("%T", v.p)
}

func termStr(t *Term, d int) string {
	if t.op == OConst || t.op == OVar {
		return t.ref()
	}
	if d == 0 {
		return "..."
	}
	n := opName[t.op]
	if n == "" {
		n = fmt.Sprintf("op%d[%d]", t.op, t.k)
	}
	s := "(" + n
	for _, a := range t.args {
		s += " " + termStr(a, d-1)
	}
	return s + ")"
}
