package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: one prediction at every position of 3x3 channels (first, last and inner column, first three rows), all samples below 2^16 in absolute value, all stored errors (quick: below 2^7, thorough: below 2^16) and the default parameters or (quick: at two positions) one of three other parameter sets
// bound: decoding of whole channels up to 3x3 with the default parameters, the last two (thorough three) residuals being any below 2^9 in absolute value
// bound: parsing of the parameters from all bit strings, complete and truncated
// outside: samples for which the 32-bit intermediate values overflow

// VH_M03_Step: one prediction from an arbitrary history.
func VH_M03_Step() {
	const w, h = 3, 3
	x := rt.Concrete(rt.Int(0, 2))
	y := rt.Concrete(rt.Int(0, 2))
	set := rt.Concrete(rt.Int(0, 3))
	rt.Assume(set == 0 || x == y && x > 0 || rt.Thorough())
	p := m03Set(set)
	lim := int32(1 << 7)
	if rt.Thorough() {
		lim = 1 << 16
	}
	rt.Merge(true)
	r := m03New(w, h, p)
	c := mChannel(w, h)
	c.allocate()
	c.initWP()
	for i := 0; i < y*w+x; i++ {
		v := rt.I32()
		rt.Assume(v > -1<<16 && v < 1<<16)
		r.v[i], c.buffer[i/w][i%w] = v, v
		for k := 0; k < 4; k++ {
			e := rt.I32()
			rt.Assume(e >= 0 && e < lim)
			r.err[k][i], c.err[k][i/w][i%w] = e, e
		}
		e := rt.I32()
		rt.Assume(e > -lim*8 && e < lim*8)
		r.tot[i], c.err[4][i/w][i%w] = e, e
	}
	pred, maxErr := r.step(x, y)
	got, err := c.prePredictWP(&p, int32(x), int32(y))
	rt.Merge(false)
	rt.Assert(err == nil, "prediction succeeds")
	rt.Assert(got == maxErr, "the error property is the error of largest magnitude")
	for k := range r.sub {
		rt.Assert(c.subpred[k] == r.sub[k], "sub-predictions")
	}
	rt.Assert(c.pred[y][x] == pred, "the prediction is the weighted average, clamped to the neighbours if the errors differ in sign")
	rt.Reach("predicted")
	r.pred = c.pred[y][x]
	v := rt.I32()
	rt.Assume(v > -1<<16 && v < 1<<16)
	rt.Merge(true)
	r.update(x, y, v)
	c.updateWPErrors(int32(x), int32(y), v)
	rt.Merge(false)
	for k := 0; k < 4; k++ {
		rt.Assert(c.err[k][y][x] == r.err[k][y*w+x], "stored errors of the sub-predictors")
	}
	rt.Assert(c.err[4][y][x] == r.tot[y*w+x], "stored error of the prediction")
}

var m03Fixed = []int32{37, 12, 250, 3, 99, 41, 0, 18, 7}

// VH_M03_Decode: whole channels.
func VH_M03_Decode() {
	w := rt.Concrete(rt.Int(1, 3))
	h := rt.Concrete(rt.Int(1, 3))
	p := m03Set(0)
	free := 2
	if rt.Thorough() {
		free = 3
	}
	rt.Merge(true)
	r := m03New(w, h, p)
	var res []uint32
	for i := 0; i < w*h; i++ {
		u := uint32(m03Fixed[i])
		if i >= w*h-free {
			u = rt.U32()
			rt.Assume(u < 1<<10)
		}
		res = append(res, u)
		pred, _ := r.step(i%w, i/w)
		r.update(i%w, i/w, mSigned(u)+(pred+3)>>3)
	}
	rt.Merge(false)
	tree, err := mTree([]mNode{mLeaf(6)})
	rt.Assert(err == nil, "the tree is accepted")
	n := 0
	s := &symStream{}
	s.f = func(k int, mult int32) (int32, error) {
		rt.Assert(n < len(res), "one symbol per sample")
		n++
		return int32(res[n-1]), nil
	}
	c := mChannel(w, h)
	rt.Merge(true)
	err = c.decode(nil, s, &p, tree, &ModularStream{channels: []*ModularChannel{c}}, 0, 0, 0)
	rt.Merge(false)
	rt.Assert(err == nil && n == len(res), "all samples are decoded")
	for i := range r.v {
		rt.Assert(c.buffer[i/w][i%w] == r.v[i], "samples are predicted by the rounded weighted prediction")
	}
	rt.Reach("decoded")
}

// VH_M03_Params: the parameters.
func VH_M03_Params() {
	n := rt.Concrete(rt.Int(0, 7))
	b := rt.Bytes(n)
	r := &rt.RefReader{D: b}
	want := m03Set(0)
	if !r.Bool() {
		want.param1, want.param2 = int(r.U(5)), int(r.U(5))
		want.param3a, want.param3b, want.param3c = int32(r.U(5)), int32(r.U(5)), int32(r.U(5))
		want.param3d, want.param3e = int32(r.U(5)), int32(r.U(5))
		for i := range want.weight {
			want.weight[i] = int64(r.U(4))
		}
	}
	got, err := NewWPParams(jxlio.NewBitStreamReader(bytes.NewReader(b)))
	rt.Assert((err != nil) == r.Bad, "exactly truncated parameters are rejected")
	rt.Reach("parsed")
	if err == nil {
		rt.Reach("accepted")
		rt.Assert(*got == want, "parameters of the weighted predictor")
	}
}

// VH_M03_Property: the error property decides between leaves that do not use the predictor.
func VH_M03_Property() {
	w := rt.Concrete(rt.Int(1, 3))
	h := rt.Concrete(rt.Int(1, 2))
	p := m03Set(rt.Concrete(rt.Int(0, 1)))
	rt.Merge(true)
	t := rt.U32()
	r := m03New(w, h, p)
	var res []uint32
	var ctx []int
	for i := 0; i < w*h; i++ {
		u := uint32(m03Fixed[i])
		if i == w*h-2 {
			u = rt.U32()
			rt.Assume(u < 1<<7)
		}
		res = append(res, u)
		_, e := r.step(i%w, i/w)
		r.update(i%w, i/w, mSigned(u))
		k := 1
		if e > mSigned(t) {
			k = 0
		}
		ctx = append(ctx, k)
	}
	rt.Merge(false)
	tree, err := mTree([]mNode{{prop: 15, value: t}, mLeaf(0), mLeaf(0)})
	rt.Assert(err == nil, "the tree is accepted")
	n := 0
	s := &symStream{}
	s.f = func(k int, mult int32) (int32, error) {
		rt.Assert(k == ctx[n], "the error property of every sample")
		n++
		return int32(res[n-1]), nil
	}
	c := mChannel(w, h)
	rt.Merge(true)
	err = c.decode(nil, s, &p, tree, &ModularStream{channels: []*ModularChannel{c}}, 0, 0, 0)
	rt.Merge(false)
	rt.Assert(err == nil && n == len(res), "all samples are decoded")
	rt.Reach("decoded")
}
