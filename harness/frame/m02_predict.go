package frame

import "github.com/kpfaulkner/jxl-go/zzverif/rt"

// bound: channels of width 1,2,3,5 (thorough 1..6) and height 1..3 (thorough 1..4), every position, every predictor but the weighted one (M03), all samples with absolute value below 2^26
// outside: samples outside that range (32-bit overflow), larger channels (the neighbourhood reaches 2 samples in each direction)

func m02Predictors(ks ...int) {
	maxW, maxH := 5, 3
	if rt.Thorough() {
		maxW, maxH = 6, 4
	}
	k := ks[rt.Concrete(rt.Int(0, len(ks)-1))]
	w := rt.Concrete(rt.Int(1, maxW))
	rt.Assume(w != 4 || rt.Thorough())
	h := rt.Concrete(rt.Int(1, maxH))
	for x := 0; x < w; x++ {
		m02At(k, w, h, x, h-1)
	}
}

// m02At checks the sample at x,y when all samples before it are arbitrary.
func m02At(k, w, h, x, y int) {
	var v []int32
	var r []uint32
	rt.Merge(true)
	for i := 0; i < y*w+x; i++ {
		u := rt.U32()
		rt.Assume(u < 1<<27)
		r = append(r, u)
		v = append(v, mSigned(u))
	}
	pad := make([]int32, w*h-len(v))
	want := mPredict(k, mHoodAt(append(append([]int32{}, v...), pad...), w, x, y))
	last := rt.U32()
	rt.Assume(last < 1<<20)
	want += mSigned(last)
	rt.Merge(false)
	r = append(r, last)
	tree, err := mTree(mAt(x, y, []mNode{mLeaf(int32(k))}))
	rt.Assert(err == nil, "the tree is accepted")
	i := 0
	s := &symStream{}
	s.f = func(ctx int, mult int32) (int32, error) {
		if i >= len(r) {
			return 0, nil
		}
		i++
		return int32(r[i-1]), nil
	}
	c := mChannel(w, h)
	ms := &ModularStream{channels: []*ModularChannel{c}}
	rt.Merge(true)
	err = c.decode(nil, s, nil, tree, ms, 0, 0, 0)
	rt.Merge(false)
	rt.Assert(err == nil, "decoding succeeds")
	rt.Assert(c.buffer[y][x] == want, "a sample is its residual plus the predictor's value")
	rt.Reach("predicted")
}

func VH_M02_Zero()     { m02Predictors(0) }
func VH_M02_West()     { m02Predictors(1, 2) }
func VH_M02_Average()  { m02Predictors(3, 10) }
func VH_M02_Select()   { m02Predictors(4) }
func VH_M02_Gradient() { m02Predictors(5) }
func VH_M02_Corner()   { m02Predictors(7, 8, 9) }
func VH_M02_Average2() { m02Predictors(11, 12) }
func VH_M02_Average4() { m02Predictors(13) }
