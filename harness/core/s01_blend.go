package core

import (
	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/frame"
	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: canvases of 3x2 samples, frames of 1..4 x 1..3 samples at every origin from (-4,-3) to (3,2); grey and RGB images without extra channels, with alpha, with depth in front of alpha, grey XYB images; references never saved, saved, saved without samples, and shared with the canvas
// bound: all five modes for colour, alpha and depth channels, clamp and premultiplied or not; float samples: every real value in [-1,1] (rounding tracked) against alphas -0.5, 0, 0.25, 0.75, 1 and 1.5, and every real alpha against fixed ones; multiplied samples: every real value of one factor; integer samples: every 32-bit value for replace and add, 4 consecutive values of one sample otherwise (thorough 16)
// outside: alpha channels blended with another alpha channel than their own, rounding differences below 1e-5, what the canvas holds outside the crop before blending

const s01W, s01H = 3, 2

// s01Image describes an image and a frame of it.
type s01Image struct {
	l       zzLayout
	xyb     bool
	premult bool
}

var s01Images = []s01Image{
	{zzLayouts[0], false, false},
	{zzLayouts[1], false, false},
	{zzLayouts[2], false, false},
	{zzLayouts[3], false, true},
	{zzLayouts[5], false, false},
	{zzLayouts[3], true, false},
}

func (i s01Image) frameColours() int {
	if i.xyb {
		return 3
	}
	return i.l.colours()
}

// frameChannel gives the frame channel of an image channel.
func (i s01Image) frameChannel(c int) int {
	if i.xyb && i.l.gray {
		if c == 0 {
			return 1
		}
		return c + 2
	}
	return c
}

var s01Alphas = []float32{0.25, 1.5, 0, 0.75, -0.5, 1}

func s01Decoder(i s01Image) (*JXLCodestreamDecoder, bundle.ImageHeader) {
	hd := zzHeader(i.l, s01W, s01H, 8, 8)
	hd.XybEncoded = i.xyb
	if i.l.alpha >= 0 {
		hd.ExtraChannelInfo[i.l.alpha].AlphaAssociated = i.premult
	}
	jxl := NewJXLCodestreamDecoder(nil, nil)
	jxl.imageHeader = &hd
	jxl.reference = make([][]image2.ImageBuffer, 4)
	return jxl, hd
}

func s01Frame(i s01Image, hd *bundle.ImageHeader, x0, y0, w, h int, colour, extra frame.BlendingInfo, buf []image2.ImageBuffer) *frame.Frame {
	fh := &frame.FrameHeader{
		Encoding:     frame.MODULAR,
		BlendingInfo: &colour,
		Bounds: &util.Rectangle{
			Origin: util.Point{X: int32(x0), Y: int32(y0)},
			Size:   util.Dimension{Width: uint32(w), Height: uint32(h)},
		},
	}
	for k := range i.l.extra {
		e := extra
		e.AlphaChannel = 0
		if i.l.alpha >= 0 {
			e.AlphaChannel = uint32(i.l.alpha)
		}
		_ = k
		fh.EcBlendingInfo = append(fh.EcBlendingInfo, e)
	}
	return &frame.Frame{Header: fh, GlobalMetadata: hd, Buffer: buf}
}

func s01Floats(n, h, w int, f func(c, y, x int) float32) []image2.ImageBuffer {
	var buf []image2.ImageBuffer
	for c := 0; c < n; c++ {
		m := make([][]float32, h)
		for y := range m {
			m[y] = make([]float32, w)
			for x := range m[y] {
				m[y][x] = f(c, y, x)
			}
		}
		buf = append(buf, *image2.NewImageBufferFromFloats(m))
	}
	return buf
}

func s01Ints(n, h, w int, f func(c, y, x int) int32) []image2.ImageBuffer {
	var buf []image2.ImageBuffer
	for c := 0; c < n; c++ {
		m := make([][]int32, h)
		for y := range m {
			m[y] = make([]int32, w)
			for x := range m[y] {
				m[y][x] = f(c, y, x)
			}
		}
		buf = append(buf, *image2.NewImageBufferFromInts(m))
	}
	return buf
}

// s01Blend is the format's definition for one sample.
func s01Blend(mode uint32, clamp, hasAlpha, isAlpha, premult bool, old, new, oa, na float32) float32 {
	if !hasAlpha {
		oa, na = 1, 1
	}
	if clamp {
		if mode == frame.BLEND_MULT {
			new = s01Clamp(new)
		}
		na = s01Clamp(na)
	}
	switch mode {
	case frame.BLEND_REPLACE:
		return new
	case frame.BLEND_ADD:
		return old + new
	case frame.BLEND_MULT:
		return old * new
	case frame.BLEND_MULADD:
		if isAlpha {
			return old
		}
		return old + new*na
	}
	a := oa + na*(1-oa)
	if isAlpha {
		return a
	}
	if !hasAlpha || premult {
		return new + old*(1-na)
	}
	if a == 0 {
		return 0
	}
	return (new*na + old*oa*(1-na)) / a
}

func s01Clamp(v float32) float32 {
	if v < 0 {
		return 0
	}
	if v > 1 {
		return 1
	}
	return v
}

// s01Place is a crop around the image.
func s01Crop() (x0, y0, w, h int) {
	w, h = rt.Concrete(rt.Int(1, 4)), rt.Concrete(rt.Int(1, 3))
	x0, y0 = rt.Concrete(rt.Int(-4, 3)), rt.Concrete(rt.Int(-3, 2))
	return
}

// s01Check compares the canvas with want(c,y,x) inside the crop and the old canvas outside.
func s01Check(canvas []image2.ImageBuffer, old [][][]float32, x0, y0, w, h int, want func(c, cy, cx, fy, fx int) float32) {
	for c := range canvas {
		rt.Assert(canvas[c].IsFloat() && canvas[c].Width == s01W && canvas[c].Height == s01H, "the canvas keeps its size")
		for y := 0; y < s01H; y++ {
			for x := 0; x < s01W; x++ {
				got := float64(canvas[c].FloatBuffer[y][x])
				if y < y0 || y >= y0+h || x < x0 || x >= x0+w {
					rt.Close(got, float64(old[c][y][x]), 1e-6, "samples outside the crop stay")
				} else {
					rt.Close(got, float64(want(c, y, x, y-y0, x-x0)), 1e-5, "samples inside the crop are blended")
				}
			}
		}
	}
}

// VH_S01_Place: crops at every place.
func VH_S01_Place() {
	i := s01Images[1]
	x0, y0, w, h := s01Crop()
	mode := uint32(rt.Concrete(rt.Int(0, 2)))
	jxl, hd := s01Decoder(i)
	fr := s01Floats(1, h, w, func(c, y, x int) float32 { return rt.Lin32(-1, 1) })
	canvas := s01Floats(1, s01H, s01W, func(c, y, x int) float32 { return rt.Lin32(-1, 1) })
	ref := s01Floats(1, s01H, s01W, func(c, y, x int) float32 { return rt.Lin32(-1, 1) })
	jxl.reference[2] = ref
	_, fo := zzCopy(fr)
	_, co := zzCopy(canvas)
	_, ro := zzCopy(ref)
	b := frame.BlendingInfo{Mode: mode, Source: 2}
	f := s01Frame(i, &hd, x0, y0, w, h, b, b, fr)
	rt.Assert(jxl.blendFrame(canvas, f) == nil, "frames are blended")
	s01Check(canvas, co, x0, y0, w, h, func(c, cy, cx, fy, fx int) float32 {
		return s01Blend(mode, false, false, false, false, ro[c][cy][cx], fo[c][fy][fx], 1, 1)
	})
	rt.Reach("blended")
}

// VH_S01_Modes: every mode on every kind of image.
func VH_S01_Modes() {
	i := s01Images[rt.Concrete(rt.Int(0, len(s01Images)-1))]
	mode := uint32(rt.Concrete(rt.Int(0, 4)))
	emode := uint32(rt.Concrete(rt.Int(0, 4)))
	clamp := rt.Concrete(rt.Int(0, 1)) == 1
	refs := rt.Concrete(rt.Int(0, 3)) // never saved, saved, no samples, the canvas
	o := [][4]int{{0, 0, 3, 2}, {-1, 1, 3, 1}, {1, -1, 2, 3}}[rt.Concrete(rt.Int(0, 2))]
	if len(i.l.extra) == 0 && emode > 0 {
		return
	}
	if !rt.Thorough() && (o[0] != 0 && (refs != 1 || mode != emode)) {
		return
	}
	s01Run(i, mode, emode, clamp, refs, o[0], o[1], o[2], o[3])
}

func s01Run(i s01Image, mode, emode uint32, clamp bool, refs, x0, y0, w, h int) {
	jxl, hd := s01Decoder(i)
	n := i.l.colours() + len(i.l.extra)
	fc := i.frameColours()
	alphaC, alphaF := -1, -1
	if i.l.alpha >= 0 {
		alphaC, alphaF = i.l.colours()+i.l.alpha, fc+i.l.alpha
	}
	modeOf := func(c int) uint32 {
		if c >= i.l.colours() {
			return emode
		}
		return mode
	}
	// multiplied samples: fixed in the frame when they are clamped, in the reference otherwise
	fixedNew := func(m uint32) bool { return m == frame.BLEND_MULT && clamp }
	fixedOld := func(m uint32) bool { return m == frame.BLEND_MULT && !clamp }
	table := func(c, y, x int) float32 { return s01Alphas[(c+2*y+x)%6] }
	fr := s01Floats(fc+len(i.l.extra), h, w, func(c, y, x int) float32 {
		m := mode
		if c >= fc {
			m = emode
		}
		if c == alphaF || fixedNew(m) {
			return table(c, y, x)
		}
		return rt.Lin32(-1, 1)
	})
	canvas := s01Floats(n, s01H, s01W, func(c, y, x int) float32 {
		if refs == 3 && (c == alphaC || fixedOld(modeOf(c))) {
			return table(c+1, x, y)
		}
		return rt.Lin32(-1, 1)
	})
	var ref []image2.ImageBuffer
	ro := make([][][]float32, n)
	for c := range ro {
		ro[c] = util.MakeMatrix2D[float32](s01H, s01W)
	}
	switch refs {
	case 1:
		ref = s01Floats(n, s01H, s01W, func(c, y, x int) float32 {
			if c == alphaC || fixedOld(modeOf(c)) {
				return table(c+1, x, y)
			}
			return rt.Lin32(-1, 1)
		})
		_, ro = zzCopy(ref)
	case 2:
		ref = make([]image2.ImageBuffer, n)
	case 3:
		ref = canvas
		_, ro = zzCopy(ref)
	}
	_, fo := zzCopy(fr)
	_, co := zzCopy(canvas)
	b := frame.BlendingInfo{Mode: mode, Source: 1, Clamp: clamp}
	if alphaC >= 0 {
		b.AlphaChannel = uint32(i.l.alpha)
	}
	jxl.reference[1] = ref
	e := b
	e.Mode = emode
	f := s01Frame(i, &hd, x0, y0, w, h, b, e, fr)
	rt.Assert(jxl.blendFrame(canvas, f) == nil, "frames are blended")
	s01Check(canvas, co, x0, y0, w, h, func(c, cy, cx, fy, fx int) float32 {
		oa, na := float32(1), float32(1)
		if alphaC >= 0 {
			oa, na = ro[alphaC][cy][cx], fo[alphaF][fy][fx]
		}
		old, new := ro[c][cy][cx], fo[i.frameChannel(c)][fy][fx]
		return s01Blend(modeOf(c), clamp, alphaC >= 0, c == alphaC, i.premult, old, new, oa, na)
	})
	rt.Reach("blended")
}

// VH_S01_Alpha: arbitrary alphas.
func VH_S01_Alpha() {
	i := s01Images[3] // premultiplied grey
	mode := uint32(2 + rt.Concrete(rt.Int(0, 1)))
	emode := uint32(2 + rt.Concrete(rt.Int(0, 1)))
	oldFixed := rt.Concrete(rt.Int(0, 1)) == 1
	jxl, hd := s01Decoder(i)
	fixed := func(c, y, x int) float32 { return s01Alphas[(c+2*y+x)%6] }
	any := func(c, y, x int) float32 { return rt.Lin32(-1, 1) }
	// colours are fixed, one of the alphas is arbitrary
	fr := s01Floats(2, s01H, s01W, func(c, y, x int) float32 {
		if c == 1 && oldFixed {
			return any(c, y, x)
		}
		return fixed(c, y, x)
	})
	ref := s01Floats(2, s01H, s01W, func(c, y, x int) float32 {
		if c == 1 && !oldFixed {
			return any(c, y, x)
		}
		return fixed(c+2, y, x)
	})
	canvas := s01Floats(2, s01H, s01W, any)
	jxl.reference[3] = ref
	_, fo := zzCopy(fr)
	_, ro := zzCopy(ref)
	_, co := zzCopy(canvas)
	b := frame.BlendingInfo{Mode: mode, Source: 3}
	e := b
	e.Mode = emode
	f := s01Frame(i, &hd, 0, 0, s01W, s01H, b, e, fr)
	rt.Assert(jxl.blendFrame(canvas, f) == nil, "frames are blended")
	s01Check(canvas, co, 0, 0, s01W, s01H, func(c, cy, cx, fy, fx int) float32 {
		m := mode
		if c == 1 {
			m = emode
		}
		return s01Blend(m, false, true, c == 1, true, ro[c][cy][cx], fo[c][fy][fx], ro[1][cy][cx], fo[1][fy][fx])
	})
	rt.Reach("blended")
}

// VH_S01_Ints: integer samples are replaced and added exactly.
func VH_S01_Ints() {
	i := s01Images[rt.Concrete(rt.Int(0, 5))]
	mode := uint32(rt.Concrete(rt.Int(0, 1)))
	refs := rt.Concrete(rt.Int(0, 3))
	o := [][4]int{{0, 0, 3, 2}, {-1, 1, 3, 1}, {1, -1, 2, 3}, {-2, -1, 7, 4}}[rt.Concrete(rt.Int(0, 3))]
	x0, y0, w, h := o[0], o[1], o[2], o[3]
	jxl, hd := s01Decoder(i)
	n := i.l.colours() + len(i.l.extra)
	any := func(c, y, x int) int32 { return rt.I32() }
	fr := s01Ints(i.frameColours()+len(i.l.extra), h, w, any)
	canvas := s01Ints(n, s01H, s01W, any)
	var ref []image2.ImageBuffer
	ro := make([][][]int32, n)
	for c := range ro {
		ro[c] = util.MakeMatrix2D[int32](s01H, s01W)
	}
	switch refs {
	case 1:
		ref = s01Ints(n, s01H, s01W, any)
		ro, _ = zzCopy(ref)
	case 2:
		ref = make([]image2.ImageBuffer, n)
	case 3:
		ref = canvas
		ro, _ = zzCopy(ref)
	}
	jxl.reference[0] = ref
	fo, _ := zzCopy(fr)
	co, _ := zzCopy(canvas)
	b := frame.BlendingInfo{Mode: mode}
	f := s01Frame(i, &hd, x0, y0, w, h, b, b, fr)
	rt.Assert(jxl.blendFrame(canvas, f) == nil, "frames are blended")
	for c := range canvas {
		rt.Assert(canvas[c].IsInt(), "integer samples stay integers")
		for y := 0; y < s01H; y++ {
			for x := 0; x < s01W; x++ {
				want := co[c][y][x]
				if y >= y0 && y < y0+h && x >= x0 && x < x0+w {
					want = fo[i.frameChannel(c)][y-y0][x-x0]
					if mode == frame.BLEND_ADD {
						want += ro[c][y][x]
					}
					rt.Assert(canvas[c].IntBuffer[y][x] == want, "samples inside the crop are blended")
				} else {
					rt.Assert(canvas[c].IntBuffer[y][x] == want, "samples outside the crop stay")
				}
			}
		}
	}
	rt.Reach("blended")
}

// VH_S01_Casts: frames, canvases and references of different sample types.
func VH_S01_Casts() {
	i := s01Images[2]
	mode := uint32(rt.Concrete(rt.Int(0, 4)))
	kind := rt.Concrete(rt.Int(0, 7)) // which of frame, canvas and reference are integers
	at := rt.Concrete(rt.Int(0, 1))   // where the arbitrary sample is
	jxl, hd := s01Decoder(i)
	depths := []uint32{8, 8, 8, 4}
	hd.ExtraChannelInfo[0].BitDepth.BitsPerSample = 4
	n := 4
	pos := [2]int{1, 2}
	bits := 3
	if rt.Thorough() {
		bits = 15
	}
	mk := func(isInt bool, k int) ([]image2.ImageBuffer, [][][]float32) {
		any := int32(rt.Int(0, bits))
		val := func(c, y, x int) int32 {
			max := int32(1)<<depths[c] - 1
			if k == at && c == 1 && y == pos[0] && x == pos[1] {
				return 40 + any
			}
			return (int32(c)*37 + int32(y)*11 + int32(x)*5 + int32(k)*19) % (max + 1)
		}
		share := func(c, y, x int) float32 {
			return float32(val(c, y, x)) / float32(int32(1)<<depths[c]-1)
		}
		if isInt {
			b := s01Ints(n, s01H, s01W, val)
			return b, func() [][][]float32 { _, f := zzCopy(s01Floats(n, s01H, s01W, share)); return f }()
		}
		b := s01Floats(n, s01H, s01W, share)
		_, f := zzCopy(b)
		return b, f
	}
	fr, fo := mk(kind&1 != 0, 0)
	ref, ro := mk(kind&2 != 0, 1)
	canvas, _ := mk(kind&4 != 0, 2)
	jxl.reference[0] = ref
	b := frame.BlendingInfo{Mode: mode}
	f := s01Frame(i, &hd, 0, 0, s01W, s01H, b, b, fr)
	rt.Assert(jxl.blendFrame(canvas, f) == nil, "frames are blended")
	for c := range canvas {
		scale := float32(1)
		if canvas[c].IsInt() {
			scale = 1 / float32(int32(1)<<depths[c]-1)
		}
		for y := 0; y < s01H; y++ {
			for x := 0; x < s01W; x++ {
				var got float32
				if canvas[c].IsInt() {
					got = float32(canvas[c].IntBuffer[y][x]) * scale
				} else {
					got = canvas[c].FloatBuffer[y][x]
				}
				want := s01Blend(mode, false, true, c == 3, false, ro[c][y][x], fo[c][y][x], ro[3][y][x], fo[3][y][x])
				d := got - want
				rt.Assert(d < 1e-4 && d > -1e-4, "samples of different types are blended as their shares of the maximum")
			}
		}
	}
	rt.Reach("blended")
}
