package core

import (
	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// zzLayout describes the channels of a test image.
type zzLayout struct {
	gray  bool
	extra []int32 // types of the extra channels
	alpha int     // index of the alpha channel among the extra channels, -1 for none
}

var zzLayouts = []zzLayout{
	{false, nil, -1},
	{true, nil, -1},
	{false, []int32{bundle.ALPHA}, 0},
	{true, []int32{bundle.ALPHA}, 0},
	{false, []int32{bundle.DEPTH, bundle.ALPHA}, 1},
	{true, []int32{bundle.DEPTH, bundle.ALPHA}, 1},
}

func (l zzLayout) colours() int {
	if l.gray {
		return 1
	}
	return 3
}

// zzHeader is the header of an sRGB image of that layout.
func zzHeader(l zzLayout, w, h int, depth, extraDepth uint32) bundle.ImageHeader {
	ce, err := colour.NewColourEncodingBundle()
	rt.Assume(err == nil)
	if l.gray {
		ce.ColourEncoding = colour.CE_GRAY
	}
	hd := bundle.ImageHeader{
		Size:           util.Dimension{Width: uint32(w), Height: uint32(h)},
		OrientedWidth:  uint32(w),
		OrientedHeight: uint32(h),
		BitDepth:       &bundle.BitDepthHeader{BitsPerSample: depth},
		ColourEncoding: ce,
		Orientation:    1,
	}
	for i, t := range l.extra {
		hd.ExtraChannelInfo = append(hd.ExtraChannelInfo, bundle.ExtraChannelInfo{EcType: t, BitDepth: bundle.BitDepthHeader{BitsPerSample: extraDepth}})
		if i == l.alpha {
			hd.AlphaIndices = append(hd.AlphaIndices, int32(i))
		}
	}
	return hd
}

// zzCopy is a deep copy of the samples.
func zzCopy(b []image2.ImageBuffer) (ints [][][]int32, floats [][][]float32) {
	for i := range b {
		var is [][]int32
		var fs [][]float32
		for _, r := range b[i].IntBuffer {
			is = append(is, append([]int32(nil), r...))
		}
		for _, r := range b[i].FloatBuffer {
			fs = append(fs, append([]float32(nil), r...))
		}
		ints = append(ints, is)
		floats = append(floats, fs)
	}
	return
}

// zzUnchanged checks that the samples of an image are still those of the copy.
func zzUnchanged(img *JXLImage, isInt []bool, ints [][][]int32, floats [][][]float32) {
	rt.Assert(len(img.Buffer) == len(isInt), "writing an image leaves its channels alone")
	for c := range img.Buffer {
		rt.Assert(img.Buffer[c].IsInt() == isInt[c], "writing an image leaves its sample types alone")
		if isInt[c] {
			for y := range ints[c] {
				for x := range ints[c][y] {
					rt.Assert(img.Buffer[c].IntBuffer[y][x] == ints[c][y][x], "writing an image leaves its samples alone")
				}
			}
		} else {
			for y := range floats[c] {
				for x := range floats[c][y] {
					rt.Assert(rt.Same(img.Buffer[c].FloatBuffer[y][x], floats[c][y][x]), "writing an image leaves its samples alone")
				}
			}
		}
	}
}

// zzClamp clamps an integer sample.
func zzClamp(v, max int32) int32 {
	if v < 0 {
		return 0
	}
	if v > max {
		return max
	}
	return v
}

// zzNearest tells whether r is f*max rounded and clamped to [0,max] (either way for ties,
// up to the rounding of 32-bit arithmetic).
func zzNearest(r int32, f float32, max int32) bool {
	if r < 0 || r > max {
		return false
	}
	if f != f {
		return true
	}
	v := f * float32(max)
	if v <= 0 {
		return r == 0
	}
	if v >= float32(max) {
		return r == max
	}
	d := float32(r) - v
	return d <= 0.52 && d >= -0.52
}

// zzScaled tells whether r is v/from*to rounded to the nearest.
func zzScaled(r, v, from, to int32) bool {
	d := int64(r)*int64(from) - int64(v)*int64(to)
	if d < 0 {
		d = -d
	}
	return d*2 <= int64(from)+int64(from)/32
}

type zzSink struct{ b []byte }

func (s *zzSink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}
