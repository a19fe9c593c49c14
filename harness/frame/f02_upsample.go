package frame

import (
	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: planes of 1x1 to 6x7 samples upsampled by 2, up to 2x3 by 4 and up to 2x1 by 8 (thorough: 6x7 by 4 and 5x2 by 8) by 1, 2 and 3 workers; one sample at a time is every real value in [-2,2] for planes of up to 24 output samples and in [-1.6,-1.5], [0.2,0.3] and [1.5,1.6] otherwise (rounding tracked), the others fixed values of both signs; default weights
// bound: every table of 15, 55 and 210 arbitrary weights is spread over the kernels as the format defines
// bound: frames with colour and extra channels of different upsampling, symbolic widths up to 2^20, any origin
// outside: channels with a dimension shift, the order in which workers write different rows (G02)

func f02Header() *bundle.ImageHeader {
	return &bundle.ImageHeader{
		BitDepth:       &bundle.BitDepthHeader{BitsPerSample: 8},
		ColourEncoding: &colour.ColourEncodingBundle{ColourEncoding: colour.CE_GRAY},
		Up2Weights:     bundle.DEFAULT_UP2,
		Up4Weights:     bundle.DEFAULT_UP4,
		Up8Weights:     bundle.DEFAULT_UP8,
	}
}

// f02Index is the place in the weight table of the weight of sample (iy,ix) for subsample (ky,kx).
func f02Index(k, ky, kx, iy, ix int) int {
	if ky >= k/2 {
		ky, iy = k-1-ky, 4-iy
	}
	if kx >= k/2 {
		kx, ix = k-1-kx, 4-ix
	}
	a, b := 5*ky+iy, 5*kx+ix
	if a > b {
		a, b = b, a
	}
	// the upper triangle of a symmetric matrix, row by row
	n := 5 * k / 2
	return a*n - a*(a-1)/2 + b - a
}

func f02Mirror(i, n int) int {
	for i < 0 || i >= n {
		if i < 0 {
			i = -1 - i
		} else {
			i = 2*n - 1 - i
		}
	}
	return i
}

func f02Weights(k int) []float32 {
	switch k {
	case 2:
		return bundle.DEFAULT_UP2
	case 4:
		return bundle.DEFAULT_UP4
	}
	return bundle.DEFAULT_UP8
}

// VH_F02_Plane: every output sample is the clamped weighted sum of its neighbourhood.
func VH_F02_Plane() {
	shapes := [][3]int{{1, 1, 2}, {1, 1, 4}, {1, 1, 8}, {2, 1, 2}, {1, 3, 4}, {3, 2, 2}, {2, 3, 4}, {2, 1, 8}, {4, 5, 2}, {6, 7, 2}}
	if rt.Thorough() {
		shapes = append(shapes, [][3]int{{1, 3, 8}, {3, 2, 8}, {4, 5, 4}, {6, 7, 4}, {5, 2, 8}}...)
	}
	s := shapes[rt.Concrete(rt.Int(0, len(shapes)-1))]
	h, w, k := s[0], s[1], s[2]
	neg := rt.Concrete(rt.Int(0, 1)) == 1
	// thorough: every place of the arbitrary sample
	py, px := h/2, w/2
	if rt.Thorough() && h*w*k*k < 100 {
		py, px = rt.Concrete(rt.Int(0, h-1)), rt.Concrete(rt.Int(0, w-1))
	} else if rt.Concrete(rt.Int(0, 1)) == 1 {
		py, px = h-1, 0
	}
	m := make([][]float32, h)
	for y := range m {
		m[y] = make([]float32, w)
		for x := range m[y] {
			m[y][x] = float32((y*7+x*5+3)%6)/8 - 0.125
			if neg {
				m[y][x] = -0.25 - m[y][x]
			}
		}
	}
	lo, hi := -2.0, 2.0
	if h*w*k*k > 24 {
		// below, between and above the other samples
		r := [][2]float64{{-1.6, -1.5}, {0.26, 0.36}, {1.5, 1.6}}[rt.Concrete(rt.Int(0, 2))]
		lo, hi = r[0], r[1]
		if neg {
			lo, hi = -0.25-hi, -0.25-lo
		}
	}
	m[py][px] = rt.Lin32(lo, hi)
	in := make([][]float32, h)
	for y := range m {
		in[y] = append([]float32(nil), m[y]...)
	}
	f := &Frame{
		options:        &options.JXLOptions{MaxGoroutines: 1 + (h+k/2)%3},
		Header:         &FrameHeader{Upsampling: uint32(k), Encoding: MODULAR},
		GlobalMetadata: f02Header(),
	}
	b, err := f.performUpsampling(*image.NewImageBufferFromFloats(m), 0)
	rt.Assert(err == nil, "planes are upsampled")
	rt.Assert(int(b.Height) == h*k && int(b.Width) == w*k && len(b.FloatBuffer) == h*k, "the plane is sized up")
	weights := f02Weights(k)
	for y := 0; y < h*k; y++ {
		rt.Assert(len(b.FloatBuffer[y]) == w*k, "the plane is sized up")
		for x := 0; x < w*k; x++ {
			var sum float32
			lo, hi := in[y/k][x/k], in[y/k][x/k]
			for iy := 0; iy < 5; iy++ {
				for ix := 0; ix < 5; ix++ {
					v := in[f02Mirror(y/k+iy-2, h)][f02Mirror(x/k+ix-2, w)]
					sum += weights[f02Index(k, y%k, x%k, iy, ix)] * v
					if v < lo {
						lo = v
					}
					if v > hi {
						hi = v
					}
				}
			}
			if sum < lo {
				sum = lo
			} else if sum > hi {
				sum = hi
			}
			rt.Close(float64(b.FloatBuffer[y][x]), float64(sum), 2e-5, "samples are the clamped weighted sums of their neighbourhoods")
		}
	}
	rt.Reach("upsampled")
}

// VH_F02_Weights: the kernels are spread out of the weight tables.
func VH_F02_Weights() {
	hd := f02Header()
	tables := make([][]float32, 3)
	for l, n := range []int{15, 55, 210} {
		for i := 0; i < n; i++ {
			tables[l] = append(tables[l], rt.F32())
		}
	}
	hd.Up2Weights, hd.Up4Weights, hd.Up8Weights = tables[0], tables[1], tables[2]
	up, err := hd.GetUpWeights()
	rt.Assert(err == nil && len(up) == 3, "there are kernels for 2, 4 and 8")
	for l := 0; l < 3; l++ {
		k := 2 << l
		for ky := 0; ky < k; ky++ {
			for kx := 0; kx < k; kx++ {
				for iy := 0; iy < 5; iy++ {
					for ix := 0; ix < 5; ix++ {
						rt.Assert(rt.Same(up[l][ky][kx][iy][ix], tables[l][f02Index(k, ky, kx, iy, ix)]), "kernels are symmetric and use every weight as the format defines")
					}
				}
			}
		}
	}
	rt.Reach("kernels")
}

// VH_F02_Defaults: the default kernels of every subsample sum up to one.
func VH_F02_Defaults() {
	up, err := f02Header().GetUpWeights()
	rt.Assert(err == nil, "there are default kernels")
	v := rt.Lin32(-1, 1)
	for l := 0; l < 3; l++ {
		for ky := range up[l] {
			for kx := range up[l][ky] {
				var sum float32
				for iy := 0; iy < 5; iy++ {
					for ix := 0; ix < 5; ix++ {
						sum += up[l][ky][kx][iy][ix] * v
					}
				}
				rt.Close(float64(sum), float64(v), 1e-5, "constant planes stay constant")
			}
		}
	}
	rt.Reach("kernels")
}

// VH_F02_Frame: channels of a frame are upsampled by their own factors, and the frame covers its crop.
func VH_F02_Frame() {
	up := uint32(1) << rt.Concrete(rt.Int(0, 3))
	ec := uint32(1) << rt.Concrete(rt.Int(0, 3))
	if ec < up {
		return
	}
	hd := f02Header()
	hd.ExtraChannelInfo = []bundle.ExtraChannelInfo{{BitDepth: bundle.BitDepthHeader{BitsPerSample: 4}}, {BitDepth: bundle.BitDepthHeader{BitsPerSample: 8}}}
	full := util.Dimension{Width: 1 + uint32(rt.Int(0, 1<<20-1)), Height: []uint32{1, 127, 129, 1030}[rt.Concrete(rt.Int(0, 3))]}
	x0, y0 := rt.I32(), rt.I32()
	down := util.Dimension{Width: (full.Width + up - 1) / up, Height: (full.Height + up - 1) / up}
	dim := uint32(128) << rt.Concrete(rt.Int(0, 3))
	header := &FrameHeader{
		Upsampling: up, EcUpsampling: []uint32{ec, up}, Encoding: MODULAR, groupDim: dim,
		upsampledSize: full,
		Bounds:        &util.Rectangle{Origin: util.Point{X: x0, Y: y0}, Size: down},
	}
	f := &Frame{options: &options.JXLOptions{MaxGoroutines: 1}, Header: header, GlobalMetadata: hd}
	ints := image.NewImageBufferFromInts([][]int32{{51, 102}})
	ext := image.NewImageBufferFromInts([][]int32{{3}})
	ext2 := image.NewImageBufferFromInts([][]int32{{153}})
	f.Buffer = []image.ImageBuffer{*ints, *ext, *ext2}
	rt.Assert(f.Upsample() == nil, "frames are upsampled")
	rt.Assert(header.Bounds.Size == full && header.Bounds.Origin.X == x0 && header.Bounds.Origin.Y == y0, "the upsampled frame covers its crop")
	b := f.Buffer[0]
	rt.Assert(b.Width == int32(2*up) && b.Height == int32(up), "colours are upsampled by their factor")
	e := f.Buffer[1]
	rt.Assert(e.Width == int32(ec) && e.Height == int32(ec), "extra channels are upsampled by their factor")
	e2 := f.Buffer[2]
	rt.Assert(e2.Width == int32(up) && e2.Height == int32(up), "each extra channel is upsampled by its own factor")
	if up > 1 {
		d := e2.FloatBuffer[up-1][0] - 0.6
		rt.Assert(d < 1e-5 && d > -1e-5, "extra channels use their own bit depth")
	}
	if up == 1 {
		rt.Assert(b.IsInt() && b.IntBuffer[0][0] == 51 && b.IntBuffer[0][1] == 102, "channels that are not upsampled are left alone")
	} else {
		for y := range b.FloatBuffer {
			for x := range b.FloatBuffer[y] {
				rt.Assert(b.FloatBuffer[y][x] >= 0.19999 && b.FloatBuffer[y][x] <= 0.40001, "integers are upsampled as their share of the maximum")
			}
		}
		rt.Assert(b.FloatBuffer[0][0] < 0.3 && b.FloatBuffer[0][2*up-1] > 0.3, "integers are upsampled as their share of the maximum")
	}
	if ec == 1 {
		rt.Assert(e.IsInt() && e.IntBuffer[0][0] == 3, "channels that are not upsampled are left alone")
	} else {
		for y := range e.FloatBuffer {
			for x := range e.FloatBuffer[y] {
				d := e.FloatBuffer[y][x] - 0.2
				rt.Assert(d < 1e-5 && d > -1e-5, "extra channels use their own bit depth")
			}
		}
	}
	rt.Assert(f.groupRowStride == (full.Width+dim-1)/dim && f.numGroups == f.groupRowStride*((full.Height+dim-1)/dim), "the groups are those of the upsampled frame")
	rt.Reach("upsampled")
}
