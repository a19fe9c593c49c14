package entropy

import "github.com/kpfaulkner/jxl-go/zzverif/rt"

// bound: copies at every distance, after every number of decoded values up to 2^31-16, with window contents arbitrary at the places involved

// e04 window: a copy in a long stream reads the value decoded that many symbols earlier, up to 2^20.
func VH_E04_Window() {
	es := e04Stream(true, 224, 3, 1, []int{0, 1})
	script := &e04Script{}
	e04Install(es, script)
	// n values have been decoded
	n := []int{1<<20 - 2, 1<<20 - 1, 1 << 20, 1<<20 + 1, 5<<20 + 7}[rt.Concrete(rt.Int(0, 4))]
	es.numDecoded77 = int32(n)
	d := rt.Int(1, 1<<21)
	dist := min(d, 1<<20, n)
	near := rt.Int(0, 5)
	rt.Assume(dist == 1<<20-near || dist == near+1 || dist == 777)
	dist = rt.Concrete(dist)
	v := make([]int32, 3)
	for i := range v {
		if dist > i {
			v[i] = rt.I32()
			es.window[(n-dist+1+i)&(1<<20-1)] = v[i]
		} else {
			v[i] = v[i-dist]
		}
	}
	tok := d - 1
	br := &extraBits{}
	if tok >= 1<<15 {
		n := rt.Concrete(bitLen(uint64(tok))) - 1
		br.v = uint64(tok - 1<<uint(n))
		tok = 1<<15 + n - 15
	}
	script.tokens = []int32{224, int32(tok), 9, 224, 2}
	script.dist = []int{0, 1, 0, 0, 1}
	for i := range v {
		got, err := es.ReadSymbol(br, 0)
		rt.Assert(err == nil && got == v[i], "a copy reads the values decoded that many symbols earlier")
	}
	got, err := es.ReadSymbol(br, 0)
	rt.Assert(err == nil && got == 9, "a literal follows")
	for _, w := range []int32{v[1], v[2], 9} {
		got, err := es.ReadSymbol(br, 0)
		rt.Assert(err == nil && got == w, "copied values and literals are in the window")
	}
	rt.Reach("ok")
}
