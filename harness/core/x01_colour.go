package core

import (
	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/frame"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// x01Planes is a frame of three colour planes and one more, with its samples.
func x01Planes(w, h int, lo, hi [3]float64) (*frame.Frame, [][][]float64) {
	f := &frame.Frame{Header: &frame.FrameHeader{Encoding: frame.MODULAR, Upsampling: 1}}
	f.Header.Bounds = &util.Rectangle{Size: util.Dimension{Width: uint32(w), Height: uint32(h)}}
	f.Header.EcUpsampling = []uint32{1}
	src := make([][][]float64, 3)
	for c := 0; c < 4; c++ {
		b := util.MakeMatrix2D[float32](h, w)
		if c < 3 {
			src[c] = make([][]float64, h)
		}
		for y := 0; y < h; y++ {
			if c < 3 {
				src[c][y] = make([]float64, w)
			}
			for x := 0; x < w; x++ {
				b[y][x] = 0.625
				if c < 3 {
					b[y][x] = rt.Lin32(lo[c], hi[c])
					src[c][y][x] = float64(b[y][x])
				}
			}
		}
		f.Buffer = append(f.Buffer, *image.NewImageBufferFromFloats(b))
	}
	return f, src
}

func x01Rest(f *frame.Frame, w, h int) {
	b := f.Buffer[3].FloatBuffer
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			rt.Assert(b[y][x] == 0.625, "extra channels keep their samples")
		}
	}
}

func x01Shape() (w, h int) {
	s := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}}
	p := s[rt.Concrete(rt.Int(0, len(s)-1))]
	return p[0], p[1]
}

// bound: planes of 1x1 to 3x2 samples, all X in [-0.1,0.1], Y and B in [-0.1,1.5]; all YCbCr samples in [-1,1] (polynomials over reals with tracked rounding)
// bound: the default inverse matrix and biases and two custom ones, intensity targets 80, 255, 1000 and 10000
// outside: other matrices and biases, samples outside the ranges, NaN and infinities
// VH_X01_XYB: XYB samples become linear RGB: undo the bias, cube, undo the absorbance matrix, scale by the intensity target.
func VH_X01_XYB() {
	w, h := x01Shape()
	f, src := x01Planes(w, h, [3]float64{-0.1, -0.1, -0.1}, [3]float64{0.1, 1.5, 1.5})
	m := colour.NewOpsinInverseMatrix()
	mat := [3][3]float64{
		{11.031566901960783, -9.866943921568629, -0.16462299647058826},
		{-3.254147380392157, 4.418770392156863, -0.16462299647058826},
		{-3.6588512862745097, 2.7129230470588235, 1.9459282392156863}}
	bias := [3]float64{-0.0037930732552754493, -0.0037930732552754493, -0.0037930732552754493}
	root := [3]float64{-0.15595420054924863, -0.15595420054924863, -0.15595420054924863}
	switch rt.Concrete(rt.Int(0, 2)) {
	case 1:
		mat = [3][3]float64{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}
		bias, root = [3]float64{0.008, 0, -0.001}, [3]float64{0.2, 0, -0.1}
	case 2:
		mat = [3][3]float64{{0.5, -0.25, 2}, {3, 1.5, -1}, {0, 0.125, 4}}
		bias, root = [3]float64{-0.027, 0.001, 0.008}, [3]float64{-0.3, 0.1, 0.2}
	}
	mm := util.MakeMatrix2D[float32](3, 3)
	bb := make([]float32, 3)
	for i := range mm {
		bb[i] = float32(bias[i])
		for j := range mm[i] {
			mm[i][j] = float32(mat[i][j])
		}
	}
	if mat[0][0] < 11 {
		m = colour.NewOpsinInverseMatrixAllParams(*colour.CM_PRI_SRGB, *colour.CM_WP_D65, mm, bb, colour.DEFAULT_QUANT_BIAS, colour.DEFAULT_QBIAS_NUMERATOR)
	}
	target := []float32{255, 80, 1000, 10000}[rt.Concrete(rt.Int(0, 3))]
	jxl := &JXLCodestreamDecoder{imageHeader: &bundle.ImageHeader{XybEncoded: true, BitDepth: &bundle.BitDepthHeader{BitsPerSample: 8}, ToneMapping: colour.NewToneMapping()}}
	jxl.imageHeader.ToneMapping.IntensityTarget = target
	err := jxl.performColourTransforms(m, f)
	rt.Assert(err == nil, "XYB frames are converted")
	if err != nil {
		return
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			v := [3]float64{src[1][y][x] + src[0][y][x] - root[0], src[1][y][x] - src[0][y][x] - root[1], src[2][y][x] - root[2]}
			for i := range v {
				v[i] = v[i]*v[i]*v[i] + bias[i]
			}
			for c := 0; c < 3; c++ {
				want := (mat[c][0]*v[0] + mat[c][1]*v[1] + mat[c][2]*v[2]) * (255 / float64(target))
				rt.Close(float64(f.Buffer[c].FloatBuffer[y][x]), want, 0.003, "XYB becomes linear RGB")
			}
		}
	}
	x01Rest(f, w, h)
	rt.Reach("XYB")
}

// VH_X01_YCbCr: YCbCr samples become RGB with the coefficients of full-range BT.601.
func VH_X01_YCbCr() {
	w, h := x01Shape()
	f, src := x01Planes(w, h, [3]float64{-1, -1, -1}, [3]float64{1, 1, 1})
	f.Header.DoYCbCr = true
	jxl := &JXLCodestreamDecoder{imageHeader: &bundle.ImageHeader{BitDepth: &bundle.BitDepthHeader{BitsPerSample: 8}, ToneMapping: colour.NewToneMapping()}}
	err := jxl.performColourTransforms(nil, f)
	rt.Assert(err == nil, "YCbCr frames are converted")
	if err != nil {
		return
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			cb, yy, cr := src[0][y][x], src[1][y][x]+128.0/255, src[2][y][x]
			rt.Close(float64(f.Buffer[0].FloatBuffer[y][x]), yy+1.402*cr, 1e-5, "red follows from Y and Cr")
			rt.Close(float64(f.Buffer[1].FloatBuffer[y][x]), yy-0.114*1.772/0.587*cb-0.299*1.402/0.587*cr, 1e-5, "green follows from Y, Cb and Cr")
			rt.Close(float64(f.Buffer[2].FloatBuffer[y][x]), yy+1.772*cb, 1e-5, "blue follows from Y and Cb")
		}
	}
	x01Rest(f, w, h)
	rt.Reach("YCbCr")
}

// VH_X01_None: other frames keep their samples and their kind; integer planes are scaled before a transform.
func VH_X01_None() {
	depth := uint32(rt.Concrete(rt.Int(1, 3)) * 5)
	f := &frame.Frame{Header: &frame.FrameHeader{Encoding: frame.MODULAR, Upsampling: 1, DoYCbCr: rt.Concrete(rt.Int(0, 1)) == 1}}
	f.Header.Bounds = &util.Rectangle{Size: util.Dimension{Width: 2, Height: 1}}
	v := [3][2]int32{{1, 0}, {1<<depth - 1, 3}, {0, 1}}
	if !f.Header.DoYCbCr {
		for c := range v {
			for x := range v[c] {
				v[c][x] = rt.I32()
			}
		}
	}
	for c := 0; c < 3; c++ {
		f.Buffer = append(f.Buffer, *image.NewImageBufferFromInts([][]int32{{v[c][0], v[c][1]}}))
	}
	jxl := &JXLCodestreamDecoder{imageHeader: &bundle.ImageHeader{BitDepth: &bundle.BitDepthHeader{BitsPerSample: depth}, ToneMapping: colour.NewToneMapping()}}
	err := jxl.performColourTransforms(nil, f)
	rt.Assert(err == nil, "integer planes are accepted")
	if err != nil {
		return
	}
	max := float64(int(1)<<depth - 1)
	for c := 0; c < 3; c++ {
		for x := 0; x < 2; x++ {
			if !f.Header.DoYCbCr {
				rt.Assert(f.Buffer[c].IsInt() && f.Buffer[c].IntBuffer[0][x] == v[c][x], "frames without a colour transform keep their samples")
				continue
			}
			cb, yy, cr := float64(v[0][x])/max, float64(v[1][x])/max+128.0/255, float64(v[2][x])/max
			want := yy + 1.402*cr
			switch c {
			case 1:
				want = yy - 0.114*1.772/0.587*cb - 0.299*1.402/0.587*cr
			case 2:
				want = yy + 1.772*cb
			}
			rt.Close(float64(f.Buffer[c].FloatBuffer[0][x]), want, 1e-5, "integer planes are fractions of the largest value")
		}
	}
	rt.Reach("none")
}
