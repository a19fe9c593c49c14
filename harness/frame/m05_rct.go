package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: all 42 transform types on all triples of 32-bit samples, channels 2x1, first channel 0..2, with channels before and after it
// bound: parsing: every transform description of up to 3 (thorough 6) bytes, with up to 2 squeeze steps
// outside: larger channels (the transform works sample by sample)

// m05Forward is the encoder's transform: in are the samples of the channels, out those coded.
func m05Forward(typ int, in [3]int32) (out [3]int32) {
	perm, kind := typ/7, typ%7
	a := in[perm%3]
	b := in[(perm+1+perm/3)%3]
	c := in[(perm+2-perm/3)%3]
	if kind == 6 {
		co := a - c
		t := c + co>>1
		cg := b - t
		return [3]int32{t + cg>>1, co, cg}
	}
	switch kind >> 1 {
	case 1:
		b -= a
	case 2:
		b -= (a + c) >> 1
	}
	if kind&1 == 1 {
		c -= a
	}
	return [3]int32{a, b, c}
}

func VH_M05_RCT() {
	typ := rt.Concrete(rt.Int(0, 41))
	begin := rt.Concrete(rt.Int(0, 2))
	const w, h = 2, 1
	ms := &ModularStream{frame: symFrame(8)}
	ms.transforms = []TransformInfo{{tr: RCT, beginC: begin, rctType: typ}}
	var orig [][]int32
	for i := 0; i < begin+4; i++ {
		var v []int32
		for j := 0; j < w*h; j++ {
			v = append(v, rt.I32())
		}
		orig = append(orig, v)
		ms.channels = append(ms.channels, mFilled(w, h, v))
	}
	for j := 0; j < w*h; j++ {
		out := m05Forward(typ, [3]int32{orig[begin][j], orig[begin+1][j], orig[begin+2][j]})
		for k := range out {
			ms.channels[begin+k].buffer[0][j] = out[k]
		}
	}
	err := ms.applyTransforms()
	rt.Assert(err == nil, "undoing the transform succeeds")
	rt.Assert(len(ms.channels) == begin+4, "the number of channels does not change")
	b := ms.getDecodedBuffer()
	for i := range orig {
		for j := range orig[i] {
			if i < begin || i >= begin+3 {
				rt.Assert(b[i][0][j] == orig[i][j], "other channels do not change")
				continue
			}
			rt.Assert(b[i][0][j] == orig[i][j], "undoing the transform restores the samples")
		}
	}
	rt.Reach("done")
}

// VH_M05_Twice: two transforms of the same stream are undone in reverse order, once.
func VH_M05_Twice() {
	t1 := rt.Concrete(rt.Int(0, 41))
	t2 := rt.Concrete(rt.Int(0, 41))
	rt.Assume(rt.Thorough() || (t1+5*t2)%11 == 0)
	b2 := rt.Concrete(rt.Int(0, 1))
	ms := &ModularStream{frame: symFrame(8)}
	ms.transforms = []TransformInfo{{tr: RCT, beginC: 0, rctType: t1}, {tr: RCT, beginC: b2, rctType: t2}}
	var v [4]int32
	for i := range v {
		v[i] = rt.I32()
	}
	c := v
	o := m05Forward(t1, [3]int32{c[0], c[1], c[2]})
	copy(c[:], o[:])
	o = m05Forward(t2, [3]int32{c[b2], c[b2+1], c[b2+2]})
	copy(c[b2:], o[:])
	for i := range c {
		ms.channels = append(ms.channels, mFilled(1, 1, []int32{c[i]}))
	}
	rt.Assert(ms.applyTransforms() == nil, "undoing the transforms succeeds")
	rt.Assert(ms.applyTransforms() == nil, "asking again is allowed")
	for i := range v {
		rt.Assert(ms.channels[i].buffer[0][0] == v[i], "transforms are undone once, in reverse order")
	}
	rt.Reach("done")
}

// VH_M05_Info: transform descriptions.
func VH_M05_Info() {
	n := 3
	if rt.Thorough() {
		n = 6
	}
	n = rt.Concrete(rt.Int(0, n))
	b := rt.Bytes(n)
	r := &rt.RefReader{D: b}
	var want TransformInfo
	want.tr = rt.Concrete(int(r.U(2)))
	bad := want.tr == 3
	if want.tr < 2 {
		want.beginC = int(r.U32(0, 3, 8, 6, 72, 10, 1096, 13))
	}
	switch want.tr {
	case 0:
		want.rctType = int(r.U32(6, 0, 0, 2, 2, 4, 10, 6))
		bad = want.rctType > 41
	case 1:
		want.numC = int(r.U32(1, 0, 3, 0, 4, 0, 1, 13))
		want.nbColours = int(r.U32(0, 8, 256, 10, 1280, 12, 5376, 16))
		want.nbDeltas = int(r.U32(0, 0, 1, 8, 257, 10, 1281, 16))
		want.dPred = int(r.U(4))
		bad = want.dPred > 13
	case 2:
		k := int(r.U32(0, 0, 1, 4, 9, 6, 41, 8))
		rt.Assume(k <= 2)
		for i := 0; i < k; i++ {
			var s SqueezeParam
			s.horizontal, s.inPlace = r.Bool(), r.Bool()
			s.beginC = int(r.U32(0, 3, 8, 6, 72, 10, 1096, 13))
			s.numC = int(r.U32(1, 0, 2, 0, 3, 0, 4, 4))
			want.sp = append(want.sp, s)
		}
	}
	rd := jxlio.NewBitStreamReader(bytes.NewReader(b))
	got, err := NewTransformInfo(rd)
	if r.Bad {
		rt.Assert(err != nil, "truncated transform descriptions are rejected")
		return
	}
	rt.Reach("parsed")
	if want.tr == 3 {
		return // rejected by the stream
	}
	rt.Assert((err != nil) == bad, "exactly the descriptions with undefined types or predictors are rejected")
	if err != nil {
		return
	}
	rt.Assert(int(rd.GetBitsCount()) == r.P, "the description is read completely")
	rt.Assert(got.tr == want.tr && got.beginC == want.beginC && got.rctType == want.rctType, "kind, first channel and type")
	rt.Assert(got.numC == want.numC && got.nbColours == want.nbColours && got.nbDeltas == want.nbDeltas && got.dPred == want.dPred, "palette parameters")
	rt.Assert(len(got.sp) == len(want.sp), "number of squeeze steps")
	for i := range want.sp {
		rt.Assert(got.sp[i] == want.sp[i], "squeeze steps")
	}
	rt.Reach("accepted")
}
