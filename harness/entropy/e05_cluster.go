package entropy

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: every simple map of up to 4 contexts (thorough 7); every entropy-coded map of up to 4 contexts (thorough 5) over prefix codes of four symbols, with and without move-to-front; index lists of up to 300 contexts with one arbitrary index; every nested ANS state
// outside: entropy-coded maps longer than that with arbitrary indices

// e05Valid: every cluster below the number of clusters is used.
func e05Valid(m []int, maxClusters int) (int, bool) {
	n := 0
	for _, c := range m {
		n = max(n, c+1)
	}
	if n > maxClusters {
		return n, false
	}
	for i := 0; i < n; i++ {
		used := false
		for _, c := range m {
			used = used || c == i
		}
		if !used {
			return n, false
		}
	}
	return n, true
}

func e05Check(data []byte, p int, bad bool, want []int, maxClusters int) {
	m := make([]int, len(want))
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	n, err := ReadClusterMap(br, m, maxClusters)
	if bad {
		rt.Assert(err != nil, "a truncated map is an error")
		return
	}
	k, ok := e05Valid(want, maxClusters)
	if !ok {
		rt.Assert(err != nil, "a map that is too large or leaves a cluster unused is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil && n == k, "a valid map is accepted and its clusters are counted")
	rt.Assert(br.BitsRead() == uint64(p), "exactly the map's bits are read")
	for i := range m {
		rt.Assert(m[i] == want[i], "contexts are assigned as the format defines")
	}
	rt.Reach("ok")
}

func VH_E05_Simple() {
	top := 4
	if rt.Thorough() {
		top = 7
	}
	want := make([]int, rt.Concrete(rt.Int(1, top)))
	data := rt.Bytes(rt.Concrete(rt.Int(0, 2)))
	r := &rt.RefReader{D: data}
	maxClusters := []int{1, 3, 256}[rt.Concrete(rt.Int(0, 2))]
	if len(want) > 1 {
		rt.Assume(len(data) == 0 || data[0]&1 == 1)
		r.U(1)
		n := rt.Concrete(int(r.U(2)))
		for i := range want {
			want[i] = int(r.U(n))
			if !r.Bad {
				want[i] = rt.Concrete(want[i])
			}
		}
	}
	e05Check(data, r.P, r.Bad, want, maxClusters)
}

// e05Nested appends a nested stream: prefix codes over four symbols with two bits each.
func e05Nested(s *bitSink, lz bool, sym [4]int) {
	if lz {
		s.put(1, 1)
		s.put(0, 2) // tokens from 224
		s.put(0, 2) // minimum length 3
		s.put(8, 4)
		s.put(1, 1) // both contexts share a cluster
		s.put(0, 2)
	} else {
		s.put(0, 1)
	}
	s.put(1, 1)  // prefix codes
	s.put(15, 4) // direct
	a := 0
	for _, v := range sym {
		a = max(a, v+1)
	}
	// alphabet size 1 + 2^k + extra
	k := bitLen(uint64(a-1)) - 1
	s.put(1, 1)
	s.put(uint64(k), 4)
	s.put(uint64(a-1-1<<uint(k)), k)
	// simple code, four symbols, balanced
	s.put(1, 2)
	s.put(3, 2)
	w := bitLen(uint64(a - 1))
	for _, v := range sym {
		s.put(uint64(v), w)
	}
	s.put(0, 1)
}

func e05Mtf(m []int) {
	var l [256]int
	for i := range l {
		l[i] = i
	}
	for i, x := range m {
		v := l[x]
		copy(l[1:x+1], l[:x])
		l[0] = v
		m[i] = v
	}
}

func e05Coded(n int, sym [4]int, last bool) {
	mtf := rt.Bool()
	var s bitSink
	s.put(0, 1)
	if mtf {
		s.put(1, 1)
	} else {
		s.put(0, 1)
	}
	e05Nested(&s, false, sym)
	want := make([]int, n)
	for i := range want {
		// sorted symbols get codes 0, 1, 2, 3, read most significant bit first
		c := i & 3
		if !last || i == n-1 {
			c = rt.Concrete(rt.Int(0, 3))
		}
		s.put(uint64(c>>1|c&1<<1), 2)
		want[i] = sym[c]
	}
	p := len(s.b)
	s.put(0, 16)
	for _, v := range want {
		if v > 255 {
			_, err := ReadClusterMap(jxlio.NewBitStreamReader(bytes.NewReader(s.bytes())), make([]int, n), n)
			rt.Assert(err != nil, "indices above 255 are an error")
			rt.Reach("large")
			return
		}
	}
	if mtf {
		e05Mtf(want)
	}
	e05Check(s.bytes(), p, false, want, n)
}

func VH_E05_Coded() {
	top := 3
	if rt.Thorough() {
		top = 5
	}
	e05Coded(rt.Concrete(rt.Int(2, top)), [4]int{0, 1, 2, 3}, false)
}

func VH_E05_CodedLarge() {
	sym := [4]int{0, 1, 2, []int{4, 200, 255, 256, 300, 1000}[rt.Concrete(rt.Int(0, 5))]}
	e05Coded(rt.Concrete(rt.Int(3, 4)), sym, false)
}

// Nested streams may use LZ77 unless there are only two contexts.
func VH_E05_CodedLz() {
	n := rt.Concrete(rt.Int(2, 5))
	var s bitSink
	s.put(0, 2)
	e05Nested(&s, true, [4]int{0, 1, 2, 224})
	c := rt.Concrete(rt.Int(0, 2))
	s.put(uint64(c>>1|c&1<<1), 2)
	s.put(3, 2) // copy three values
	s.put(0, 2) // from distance 1
	want := make([]int, n)
	for i := range want {
		if i < 4 {
			want[i] = c
		}
	}
	p := len(s.b)
	s.put(0, 16)
	if n == 2 {
		_, err := ReadClusterMap(jxlio.NewBitStreamReader(bytes.NewReader(s.bytes())), make([]int, n), n)
		rt.Assert(err != nil, "nested streams for two contexts cannot use LZ77")
		rt.Reach("two")
		return
	}
	if n > 4 {
		p += 2
	}
	e05Check(s.bytes(), p, false, want, n)
}

// A single context is always cluster 0 and takes no bits.
func VH_E05_One() {
	e05Check(rt.Bytes(rt.Concrete(rt.Int(0, 1))), 0, false, []int{0}, 1)
}

// Nested ANS streams: the map is accepted exactly when the final state is right.
func VH_E05_Ans() {
	n := 2
	if rt.Thorough() {
		n = rt.Concrete(rt.Int(2, 4))
	}
	var s bitSink
	s.put(0, 1) // not simple
	s.put(0, 1) // no move-to-front
	s.put(0, 1) // no LZ77
	s.put(0, 1) // ANS
	s.put(0, 2) // alphabet 32
	s.put(5, 3) // direct
	s.put(2, 2) // flat
	s.put(1, 4) // two symbols
	state := rt.U32()
	refill := rt.U16()
	for i := 0; i < 32; i++ {
		s.b = append(s.b, byte(state>>uint(i)&1))
	}
	for i := 0; i < 16; i++ {
		s.b = append(s.b, byte(refill>>uint(i)&1))
	}
	s.put(0, 64)
	want := make([]int, n)
	p := len(s.b) - 80
	x := state
	used := 0
	for i := range want {
		// slots of a flat table of 32 entries: see E03
		st := &ANSState{}
		st.SetState(int32(1<<28 | x&4095))
		want[i] = e05Flat(int(x & 4095))
		x = 2048*(x>>12) + uint32(e05Off(int(x&4095)))
		if x < 1<<16 {
			rt.Assume(used == 0)
			used++
			x = x<<16 | uint32(refill)
			p += 16
		}
	}
	rt.Merge(false)
	m := make([]int, n)
	br := jxlio.NewBitStreamReader(bytes.NewReader(s.bytes()))
	_, err := ReadClusterMap(br, m, n)
	if x != 0x130000 {
		rt.Assert(err != nil, "a wrong final state is an error")
		rt.Reach("rejected")
		return
	}
	_ = p
	_, ok := e05Valid(want, n)
	rt.Assert((err == nil) == ok, "a right final state is accepted")
	if ok {
		for i := range m {
			rt.Assert(m[i] == want[i], "contexts are assigned as the format defines")
		}
	}
	rt.Reach("ok")
}

// e05Flat and e05Off give the symbol and offset of a slot for two equal symbols over 32 entries of 128.
func e05Flat(x int) int { s, _ := e05Table.look(x); return s }
func e05Off(x int) int  { _, o := e05Table.look(x); return o }

var e05Table = e05Build()

type e05Alias struct{ cut, sym, off [32]int }

func e05Build() (a e05Alias) {
	var over, under []int
	for i := range a.cut {
		if i < 2 {
			a.cut[i] = 2048
			over = append(over, i)
		} else {
			under = append(under, i)
		}
	}
	for len(over) > 0 {
		o, u := over[len(over)-1], under[len(under)-1]
		over, under = over[:len(over)-1], under[:len(under)-1]
		a.cut[o] -= 128 - a.cut[u]
		a.sym[u] = o
		a.off[u] = a.cut[o]
		if a.cut[o] < 128 {
			under = append(under, o)
		} else if a.cut[o] > 128 {
			over = append(over, o)
		}
	}
	for i := range a.cut {
		if a.cut[i] == 128 {
			a.cut[i], a.sym[i], a.off[i] = 0, i, 0
		} else {
			a.off[i] -= a.cut[i]
		}
	}
	return
}

func (a *e05Alias) look(x int) (sym, off int) {
	i, pos := rt.Concrete(x>>7), x&127
	if pos >= a.cut[i] {
		return a.sym[i], a.off[i] + pos
	}
	return i, pos
}
