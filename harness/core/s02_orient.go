package core

import (
	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: channels of 1..4 x 1..4, 1x9, 9x1 and 5x7 samples (thorough also 17x3), every 32-bit integer and float sample, every 32-bit orientation value
// outside: the oriented image size in the header (H02)

// s02Source gives the source position of a sample of the oriented channel.
func s02Source(o, y, x, h, w int) (int, int) {
	switch o {
	case 2:
		return y, w - 1 - x
	case 3:
		return h - 1 - y, w - 1 - x
	case 4:
		return h - 1 - y, x
	case 5:
		return x, y
	case 6:
		return h - 1 - x, y
	case 7:
		return h - 1 - x, w - 1 - y
	case 8:
		return x, w - 1 - y
	}
	return y, x
}

func s02Size() (h, w int) {
	k := rt.Concrete(rt.Int(0, 18))
	if k < 16 {
		return 1 + k/4, 1 + k%4
	}
	s := [][2]int{{1, 9}, {9, 1}, {5, 7}}
	if rt.Thorough() {
		s[2] = [2]int{17, 3}
	}
	return s[k-16][0], s[k-16][1]
}

func s02Shape(o, h, w int, b image2.ImageBuffer) (int, int) {
	oh, ow := h, w
	if o >= 5 {
		oh, ow = w, h
	}
	rt.Assert(int(b.Height) == oh && int(b.Width) == ow, "the size is swapped exactly for the transposing orientations")
	n, m := len(b.IntBuffer), 0
	if b.IsFloat() {
		n = len(b.FloatBuffer)
	}
	rt.Assert(n == oh, "the size is swapped exactly for the transposing orientations")
	for y := 0; y < oh; y++ {
		if b.IsFloat() {
			m = len(b.FloatBuffer[y])
		} else {
			m = len(b.IntBuffer[y])
		}
		rt.Assert(m == ow, "the size is swapped exactly for the transposing orientations")
	}
	return oh, ow
}

// VH_S02_Ints: channels of integers.
func VH_S02_Ints() {
	h, w := s02Size()
	o := rt.Concrete(rt.Int(1, 8))
	m := make([][]int32, h)
	for y := range m {
		m[y] = make([]int32, w)
		for x := range m[y] {
			m[y][x] = rt.I32()
		}
	}
	src := *image2.NewImageBufferFromInts(m)
	ints, _ := zzCopy([]image2.ImageBuffer{src})
	jxl := NewJXLCodestreamDecoder(nil, nil)
	b, err := jxl.transposeBuffer(src, uint32(o))
	rt.Assert(err == nil && b.IsInt(), "the orientations of the format are applied")
	oh, ow := s02Shape(o, h, w, b)
	for y := 0; y < oh; y++ {
		for x := 0; x < ow; x++ {
			sy, sx := s02Source(o, y, x, h, w)
			rt.Assert(b.IntBuffer[y][x] == ints[0][sy][sx], "every sample comes from the prescribed place")
		}
	}
	rt.Reach("oriented")
}

// VH_S02_Floats: channels of floats.
func VH_S02_Floats() {
	h, w := s02Size()
	o := rt.Concrete(rt.Int(1, 8))
	m := make([][]float32, h)
	for y := range m {
		m[y] = make([]float32, w)
		for x := range m[y] {
			m[y][x] = rt.F32()
		}
	}
	src := *image2.NewImageBufferFromFloats(m)
	_, floats := zzCopy([]image2.ImageBuffer{src})
	jxl := NewJXLCodestreamDecoder(nil, nil)
	b, err := jxl.transposeBuffer(src, uint32(o))
	rt.Assert(err == nil && b.IsFloat(), "the orientations of the format are applied")
	oh, ow := s02Shape(o, h, w, b)
	for y := 0; y < oh; y++ {
		for x := 0; x < ow; x++ {
			sy, sx := s02Source(o, y, x, h, w)
			rt.Assert(rt.Same(b.FloatBuffer[y][x], floats[0][sy][sx]), "every sample comes from the prescribed place")
		}
	}
	rt.Reach("oriented")
}

// VH_S02_Invalid: other orientations.
func VH_S02_Invalid() {
	o := rt.U32()
	rt.Assume(o < 1 || o > 8)
	jxl := NewJXLCodestreamDecoder(nil, nil)
	var src image2.ImageBuffer
	if rt.Bool() {
		src = *image2.NewImageBufferFromInts([][]int32{{1, 2}})
	} else {
		src = *image2.NewImageBufferFromFloats([][]float32{{1, 2}})
	}
	_, err := jxl.transposeBuffer(src, o)
	rt.Assert(err != nil, "invalid orientations are rejected")
	rt.Reach("rejected")
}
