package image

import (
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: integer to float and back: every sample of every bit depth 1..12 (thorough 1..16); float to integer: every 32-bit float pattern, maxima of depths 1..31 (quick: 1, 8, 10, 16, 24, 31); clamping: every 32-bit sample and every maximum >= 0; buffers of 1x1 to 2x3 samples
// outside: the nearest-even choice for ties, samples of more than 16 bits converted to float and back

func s03Max(depth int) int32 { return int32(uint32(1)<<uint(depth) - 1) }

// s03Round gives the integer nearest to v*max for a v in [0,1], and the ends outside.
func s03Ok(r int32, f float32, max int32) bool {
	if r < 0 || r > max {
		return false
	}
	if f != f {
		return true
	}
	// f*max rounded to 32 bits, as every implementation in 32-bit arithmetic computes it
	v := f * float32(max)
	if v <= 0 {
		return r == 0
	}
	if v >= float32(max) {
		return r == max
	}
	d := float32(r) - v
	lim := float32(0.5)
	if v > 1<<20 {
		lim += v / (1 << 22)
	} else {
		lim += 0.125
	}
	return d <= lim && d >= -lim
}

// VH_S03_ToInt: float to integer.
func VH_S03_ToInt() {
	depths := []int{1, 8, 10, 16, 24, 31}
	if rt.Thorough() {
		depths = nil
		for d := 1; d < 32; d++ {
			depths = append(depths, d)
		}
	}
	max := s03Max(depths[rt.Concrete(rt.Int(0, len(depths)-1))])
	f := rt.F32()
	ib := NewImageBufferFromFloats([][]float32{{f}})
	err := ib.CastToIntIfMax(max)
	rt.Assert(err == nil, "a float buffer converts to integers")
	rt.Assert(ib.IsInt() && !ib.IsFloat(), "the buffer is an integer buffer afterwards")
	rt.Merge(true)
	ok := s03Ok(ib.IntBuffer[0][0], f, max)
	rt.Merge(false)
	rt.Assert(ok, "a float becomes the nearest integer in range")
	rt.Reach("converted")
}

// VH_S03_Back: integers to floats and back.
func VH_S03_Back() {
	lim := 12
	if rt.Thorough() {
		lim = 16
	}
	depth := rt.Concrete(rt.Int(1, lim))
	max := s03Max(depth)
	v := int32(rt.U16()) & max
	ib := NewImageBufferFromInts([][]int32{{v}})
	rt.Assert(ib.CastToFloatIfMax(max) == nil, "an integer buffer converts to floats")
	rt.Assert(ib.IsFloat() && !ib.IsInt(), "the buffer is a float buffer afterwards")
	f := ib.FloatBuffer[0][0]
	rt.Assert(f >= 0 && f <= 1.000001, "integers become floats between 0 and 1")
	d := f*float32(max) - float32(v)
	rt.Assert(d < 0.01 && d > -0.01, "an integer v becomes v/max")
	rt.Assert(ib.CastToIntIfMax(max) == nil, "the buffer converts back")
	rt.Assert(ib.IntBuffer[0][0] == v, "converting to floats and back loses nothing")
	rt.Reach("converted")
}

// VH_S03_Signed: integers outside the range.
func VH_S03_Signed() {
	max := s03Max(rt.Concrete(rt.Int(1, 3)) * 4)
	v := rt.Int(-1<<14, 1<<14)
	ib := NewImageBufferFromInts([][]int32{{int32(v)}})
	rt.Assert(ib.CastToFloatIfMax(max) == nil, "an integer buffer converts to floats")
	d := ib.FloatBuffer[0][0]*float32(max) - float32(v)
	rt.Assert(d < 0.01 && d > -0.01, "an integer v becomes v/max")
	rt.Reach("converted")
}

// VH_S03_Clamp: clamping integers.
func VH_S03_Clamp() {
	max := rt.I32()
	rt.Assume(max >= 0)
	w, h := rt.Concrete(rt.Int(1, 3)), rt.Concrete(rt.Int(1, 2))
	ib, err := NewImageBuffer(TYPE_INT, int32(h), int32(w))
	rt.Assert(err == nil, "a buffer is made")
	var in []int32
	for i := 0; i < w*h; i++ {
		in = append(in, rt.I32())
		ib.IntBuffer[i/w][i%w] = in[i]
	}
	rt.Merge(true)
	err = ib.Clamp(max)
	rt.Merge(false)
	rt.Assert(err == nil, "an integer buffer is clamped")
	for i, v := range in {
		got := ib.IntBuffer[i/w][i%w]
		rt.Assert(got >= 0 && got <= max, "clamped samples are in range")
		rt.Assert(v < 0 || v > max || got == v, "samples in range are not altered")
		rt.Assert(v >= 0 || got == 0, "negative samples become 0")
		rt.Assert(v <= max || got == max, "samples above the maximum become the maximum")
	}
	rt.Reach("clamped")
}

// VH_S03_Shapes: every sample of a larger buffer is converted.
func VH_S03_Shapes() {
	w, h := rt.Concrete(rt.Int(1, 3)), rt.Concrete(rt.Int(1, 2))
	ib, err := NewImageBuffer(TYPE_INT, int32(h), int32(w))
	rt.Assert(err == nil && ib.IsInt() && int(ib.Width) == w && int(ib.Height) == h, "a buffer is made")
	rt.Assert(len(ib.IntBuffer) == h && len(ib.IntBuffer[0]) == w, "the buffer has its size")
	var in []int32
	for i := 0; i < w*h; i++ {
		in = append(in, int32(rt.U8()))
		ib.IntBuffer[i/w][i%w] = in[i]
	}
	cp := NewImageBufferFromImageBuffer(ib, true)
	rt.Assert(cp.Equals(*ib) && ib.Equals(*cp), "a copy equals its original")
	rt.Assert(ib.CastToIntIfMax(255) == nil && ib.IsInt(), "integers stay integers")
	rt.Assert(ib.CastToFloatIfMax(255) == nil, "an integer buffer converts to floats")
	rt.Assert(!cp.Equals(*ib), "buffers of different types differ")
	rt.Assert(ib.CastToFloatIfMax(255) == nil && ib.IsFloat(), "floats stay floats")
	rt.Assert(len(ib.FloatBuffer) == h && len(ib.FloatBuffer[0]) == w, "the float buffer has its size")
	rt.Merge(true)
	err = ib.CastToIntIfMax(255)
	rt.Merge(false)
	rt.Assert(err == nil, "the buffer converts back")
	for i, v := range in {
		rt.Assert(ib.IntBuffer[i/w][i%w] == v, "every sample is converted back")
		rt.Assert(cp.IntBuffer[i/w][i%w] == v, "a copy is not affected by what happens to its original")
	}
	k := rt.Concrete(rt.Int(0, w*h-1))
	cp.IntBuffer[k/w][k%w] ^= 1
	rt.Assert(ib.IntBuffer[k/w][k%w] == in[k], "an original is not affected by what happens to its copy")
	rt.Assert(!cp.Equals(*ib) && !ib.Equals(*cp), "buffers that differ in one sample are not equal")
	rt.Reach("converted")
}

// VH_S03_Refused: maxima below 1 and wrong arguments are refused without changes.
func VH_S03_Refused() {
	max := rt.I32()
	rt.Assume(max < 1)
	v := int32(rt.U16())
	a := NewImageBufferFromInts([][]int32{{v}})
	rt.Assert(a.CastToFloatIfMax(max) != nil, "a maximum below 1 is refused")
	rt.Assert(a.IsInt() && a.IntBuffer[0][0] == v, "a refused conversion changes nothing")
	f := float32(v)
	b := NewImageBufferFromFloats([][]float32{{f}})
	rt.Assert(b.CastToIntIfMax(max) != nil, "a maximum below 1 is refused")
	rt.Assert(b.IsFloat() && b.FloatBuffer[0][0] == f, "a refused conversion changes nothing")
	rt.Assert(b.Clamp(5) != nil && b.IsFloat() && b.FloatBuffer[0][0] == f, "floats are not clamped as integers")
	typ, w, h := rt.Int(-3, 5), rt.I32(), rt.I32()
	rt.Assume(typ != TYPE_INT && typ != TYPE_FLOAT || w < 0 || h < 0 || w > 1<<30 || h > 1<<30)
	_, err := NewImageBuffer(typ, h, w)
	rt.Assert(err != nil, "bad types and sizes are refused")
	rt.Reach("refused")
}
