package frame

import (
	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// f01Frame is a frame of n channels of floats.
func f01Frame(w, h, n int, enc uint32) *Frame {
	f := &Frame{}
	f.Header = &FrameHeader{Encoding: enc, groupDim: 256, lfGroupDim: 2048, Upsampling: 1,
		jpegUpsamplingX: []int32{0, 0, 0}, jpegUpsamplingY: []int32{0, 0, 0}}
	f.Header.Bounds = &util.Rectangle{Size: util.Dimension{Width: uint32(w), Height: uint32(h)}}
	f.Header.restorationFilter = NewRestorationFilter()
	f.GlobalMetadata = &bundle.ImageHeader{BitDepth: &bundle.BitDepthHeader{BitsPerSample: 8}, XybEncoded: n == 3,
		ColourEncoding: &colour.ColourEncodingBundle{ColourEncoding: colour.CE_GRAY}}
	f.options = &options.JXLOptions{MaxGoroutines: 2}
	f.groupRowStride, f.lfGroupRowStride, f.numGroups, f.numLFGroups = 1, 1, 1, 1
	for c := 0; c < n; c++ {
		f.Buffer = append(f.Buffer, *image.NewImageBufferFromFloats(util.MakeMatrix2D[float32](h, w)))
	}
	return f
}

// f01Mirror is the sample position that stands for position v of n.
func f01Mirror(v, n int) int {
	v %= 2 * n
	if v < 0 {
		v += 2 * n
	}
	if v >= n {
		v = 2*n - 1 - v
	}
	return v
}

// bound: planes of 1x1 to 5x4 samples for the Gabor-like filter and 3x3 to 17x9 for the edge-preserving one, all sample values in [-2,2] (linear forms with tracked rounding)
// bound: edge-preserving filter: the weights follow from concrete guide channels, the filtered channel is symbolic; 1 to 3 iterations
// outside: guide channels with arbitrary values (beyond constant planes), filter weights other than the listed sets, sizes that are no multiple of the block size in VarDCT frames (filtered with their padding)
// VH_F01_Gab: each sample becomes the normalised weighted sum of its 3x3 neighbourhood.
func VH_F01_Gab() {
	shapes := [][2]int{{1, 1}, {2, 1}, {1, 3}, {3, 3}, {5, 4}}
	sh := shapes[rt.Concrete(rt.Int(0, len(shapes)-1))]
	w, h := sh[0], sh[1]
	n := 1 + 2*rt.Concrete(rt.Int(0, 1))
	f := f01Frame(w, h, n, MODULAR)
	rf := f.Header.restorationFilter
	set := rt.Concrete(rt.Int(0, 2))
	w1, w2 := []float32{0.115169525, 0.115169525, 0.115169525}, []float32{0.061248592, 0.061248592, 0.061248592}
	switch set {
	case 1:
		w1, w2 = []float32{0.5, 0, 0.25}, []float32{0, 0.125, -0.0625}
	case 2:
		w1, w2 = []float32{0, -0.125, 1}, []float32{0.03125, 0.5, 1}
	}
	if set > 0 {
		rf.gab1Weights, rf.gab2Weights = w1, w2
	}
	src := make([][][]float32, n)
	for c := range src {
		src[c] = util.MakeMatrix2D[float32](h, w)
		for y := range src[c] {
			for x := range src[c][y] {
				src[c][y][x] = rt.Lin32(-2, 2)
				f.Buffer[c].FloatBuffer[y][x] = src[c][y][x]
			}
		}
	}
	err := f.performGabConvolution()
	rt.Assert(err == nil, "planes of any size are filtered")
	if err != nil {
		return
	}
	for c := range src {
		norm := 1 / (1 + 4*float64(w1[c]) + 4*float64(w2[c]))
		b := f.Buffer[c].FloatBuffer
		rt.Assert(len(b) == h && len(b[0]) == w, "the size stays")
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				sum := 0.0
				for dy := -1; dy <= 1; dy++ {
					for dx := -1; dx <= 1; dx++ {
						k := norm
						switch {
						case dy != 0 && dx != 0:
							k *= float64(w2[c])
						case dy != 0 || dx != 0:
							k *= float64(w1[c])
						}
						sum += k * float64(src[c][f01Mirror(y+dy, h)][f01Mirror(x+dx, w)])
					}
				}
				rt.Close(float64(b[y][x]), sum, 1e-5, "samples are convolved with the normalised kernel")
			}
		}
	}
	rt.Reach("gab")
}

// VH_F01_Order: integer samples are filtered as fractions of the largest value.
func VH_F01_Order() {
	f := f01Frame(3, 2, 1, MODULAR)
	b := util.MakeMatrix2D[int32](2, 3)
	for y := range b {
		for x := range b[y] {
			b[y][x] = 200
		}
	}
	f.Buffer[0] = *image.NewImageBufferFromInts(b)
	rt.Assert(f.performGabConvolution() == nil, "integer planes are filtered")
	for y := 0; y < 2; y++ {
		for x := 0; x < 3; x++ {
			rt.Close(float64(f.Buffer[0].FloatBuffer[y][x]), 200.0/255, 1e-5, "a constant plane stays")
		}
	}
	rt.Reach("order")
}

type f01Pt struct{ y, x int }

var f01Plus = []f01Pt{{0, 0}, {0, -1}, {0, 1}, {-1, 0}, {1, 0}}
var f01Star = append(append([]f01Pt{}, f01Plus...), []f01Pt{{-1, -1}, {-1, 1}, {1, -1}, {1, 1}, {0, -2}, {0, 2}, {-2, 0}, {2, 0}}...)

// f01Weights gives the weights of the neighbours of a sample; guide holds the channels that decide.
func f01Weights(guide [][][]float64, scale []float64, step int, mul float64, y, x int) (pts []f01Pt, wts []float64) {
	h, w := len(guide[0]), len(guide[0][0])
	pts = f01Plus
	if step == 0 {
		pts = f01Star
	}
	at := func(c, y, x int) float64 { return guide[c][f01Mirror(y, h)][f01Mirror(x, w)] }
	total := 0.0
	for _, p := range pts {
		d := 0.0
		for c := range guide {
			if step == 2 {
				d += scale[c] * f01Abs(at(c, y, x)-at(c, y+p.y, x+p.x))
				continue
			}
			for _, q := range f01Plus {
				d += scale[c] * f01Abs(at(c, y+q.y, x+q.x)-at(c, y+p.y+q.y, x+p.x+q.x))
			}
		}
		k := 1 - d*mul
		if k < 0 {
			k = 0
		}
		total += k
		wts = append(wts, k)
	}
	for i := range wts {
		wts[i] /= total
	}
	return
}

func f01Abs(v float64) float64 {
	if v < 0 {
		return -v
	}
	return v
}

const f01Step = 1.65 * 4 * (1 - 0.7071067811865476)

// f01Filter runs the reference: guides are the channels with a scale, target the other one.
func f01Filter(guide [][][]float64, scale []float64, target [][]float64, iterations int, p0, p2, border float64, inv func(y, x int) float64) [][]float64 {
	h, w := len(target), len(target[0])
	for step := 0; step < 3; step++ {
		if step == 0 && iterations < 3 || step == 2 && iterations < 2 {
			continue
		}
		sc := f01Step
		switch step {
		case 0:
			sc *= p0
		case 2:
			sc *= p2
		}
		nt := make([][]float64, h)
		ng := make([][][]float64, len(guide))
		for c := range ng {
			ng[c] = make([][]float64, h)
			for y := range ng[c] {
				ng[c][y] = make([]float64, w)
			}
		}
		for y := 0; y < h; y++ {
			nt[y] = make([]float64, w)
			for x := 0; x < w; x++ {
				s := inv(y, x)
				if s > 1/0.3 {
					nt[y][x] = target[y][x]
					for c := range guide {
						ng[c][y][x] = guide[c][y][x]
					}
					continue
				}
				m := sc * s
				if y%8 == 0 || y%8 == 7 || x%8 == 0 || x%8 == 7 {
					m *= border
				}
				pts, wts := f01Weights(guide, scale, step, m, y, x)
				sum := 0.0
				for i, p := range pts {
					if wts[i] != 0 {
						sum += wts[i] * target[f01Mirror(y+p.y, h)][f01Mirror(x+p.x, w)]
						for c := range guide {
							ng[c][y][x] += wts[i] * guide[c][f01Mirror(y+p.y, h)][f01Mirror(x+p.x, w)]
						}
					}
				}
				nt[y][x] = sum
			}
		}
		target, guide = nt, ng
	}
	return target
}

// VH_F01_EPF: the edge-preserving filter of a frame with one sigma.
func VH_F01_EPF() {
	it := 1 + rt.Concrete(rt.Int(0, 2))
	shapes := [][2]int{{3, 3}, {5, 3}, {9, 4}, {10, 9}}
	if !rt.Thorough() {
		shapes = shapes[:3]
	}
	sh := shapes[rt.Concrete(rt.Int(0, len(shapes)-1))]
	w, h := sh[0], sh[1]
	t := rt.Concrete(rt.Int(0, 2)) // the channel without influence on the weights
	mode := rt.Concrete(rt.Int(0, 1))
	f := f01Frame(w, h, 3, MODULAR)
	rf := f.Header.restorationFilter
	rf.epfIterations = uint32(it)
	rf.epfChannelScale = []float32{40, 5, 3.5}
	rf.epfChannelScale[t] = 0
	sigma := 1.0
	p0, p2, border := 0.9, 6.5, 2.0/3
	if mode == 1 {
		sigma, p0, p2, border = 2.5, 1.5, 2, 0.25
		rf.epfSigmaForModular, rf.epfPass0SigmaScale, rf.epfPass2SigmaScale, rf.epfBorderSadMul = 2.5, 1.5, 2, 0.25
	}
	var guide [][][]float64
	var scale []float64
	target := make([][]float64, h)
	for c := 0; c < 3; c++ {
		b := f.Buffer[c].FloatBuffer
		g := make([][]float64, h)
		for y := 0; y < h; y++ {
			g[y] = make([]float64, w)
			if c == t {
				target[y] = make([]float64, w)
			}
			for x := 0; x < w; x++ {
				if c == t {
					// different samples do not touch, so that their order is known
					k := float64((y*w + x) * 7 % (w * h))
					b[y][x] = rt.Lin32(k/16, k/16+0.03)
					target[y][x] = float64(b[y][x])
					continue
				}
				b[y][x] = float32((y*y*3+x*5+c*y*x)%11) / 1024
				if (x+y)%4 == 1 {
					b[y][x] *= 8
				}
				g[y][x] = float64(b[y][x])
			}
		}
		if c != t {
			guide = append(guide, g)
			scale = append(scale, float64(rf.epfChannelScale[c]))
		}
	}
	rt.Merge(true)
	err := f.performEdgePreservingFilter()
	rt.Merge(false)
	rt.Assert(err == nil, "planes of any size are filtered")
	if err != nil {
		return
	}
	want := f01Filter(guide, scale, target, it, p0, p2, border, func(y, x int) float64 { return 1 / sigma })
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			rt.Close(float64(f.Buffer[t].FloatBuffer[y][x]), want[y][x], 2e-4, "samples are averaged with the weights of the format")
		}
	}
	rt.Reach("EPF")
}

// VH_F01_Sigma: in VarDCT frames the strength follows from each block's quantiser and sharpness.
func VH_F01_Sigma() {
	w, h := 16, 8
	if rt.Thorough() {
		h = 16
	}
	f := f01Frame(w, h, 3, VARDCT)
	rf := f.Header.restorationFilter
	it := rt.Concrete(rt.Int(1, 2))
	rf.epfIterations = uint32(it)
	rf.epfChannelScale = []float32{0, 5, 3.5}
	f.LfGlobal = &LFGlobal{globalScale: []int32{65536, 16384}[rt.Concrete(rt.Int(0, 1))]}
	sharp := int32(rt.Concrete(rt.Int(-1, 8)))
	mult := []int32{1, 3}[rt.Concrete(rt.Int(0, 1))]
	lf := &LFGroup{hfMetadata: &HFMetadata{hfMultiplier: util.MakeMatrix2D[int32](h/8, w/8), hfStreamBuffer: util.MakeMatrix3D[int32](4, h/8, w/8)}}
	for y := 0; y < h/8; y++ {
		for x := 0; x < w/8; x++ {
			lf.hfMetadata.hfMultiplier[y][x] = mult + int32(x)
			lf.hfMetadata.hfStreamBuffer[3][y][x] = 4
		}
	}
	lf.hfMetadata.hfStreamBuffer[3][h/8-1][1] = sharp
	f.lfGroups = []*LFGroup{lf}
	target := make([][]float64, h)
	guide := make([][][]float64, 2)
	for c := 0; c < 3; c++ {
		b := f.Buffer[c].FloatBuffer
		if c > 0 {
			guide[c-1] = make([][]float64, h)
		}
		for y := 0; y < h; y++ {
			if c == 0 {
				target[y] = make([]float64, w)
			} else {
				guide[c-1][y] = make([]float64, w)
			}
			for x := 0; x < w; x++ {
				if c == 0 {
					k := float64((y*w + x) * 7 % (w * h))
					b[y][x] = rt.Lin32(k/16, k/16+0.03)
					target[y][x] = float64(b[y][x])
					continue
				}
				b[y][x] = float32((y*y*3+x*5+c*y*x)%11) / 512
				guide[c-1][y][x] = float64(b[y][x])
			}
		}
	}
	rt.Merge(true)
	err := f.performEdgePreservingFilter()
	rt.Merge(false)
	rt.Assert((err == nil) == (sharp >= 0 && sharp < 8), "sharpness values beyond the table are rejected")
	if err != nil {
		rt.Reach("rejected")
		return
	}
	want := f01Filter(guide, []float64{5, 3.5}, target, it, 0.9, 6.5, 2.0/3, func(y, x int) float64 {
		s := int32(4)
		if y/8 == h/8-1 && x/8 == 1 {
			s = sharp
		}
		if s == 0 {
			return 1e9
		}
		sigma := 65536 / float64(f.LfGlobal.globalScale) * 0.46 * float64(s) / 7 / float64(mult+int32(x/8))
		return 1 / sigma
	})
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			rt.Close(float64(f.Buffer[0].FloatBuffer[y][x]), want[y][x], 2e-4, "the strength of the filter follows from each block")
		}
	}
	rt.Reach("sigma")
}

// VH_F01_Groups: blocks beyond the first LF group.
func VH_F01_Groups() {
	// 257 blocks in a row or column; only those around the border of the groups and at the end are filtered.
	tall := rt.Concrete(rt.Int(0, 1)) == 1
	at := []int{128, 255, 256}[rt.Concrete(rt.Int(0, 2))]
	bw, bh := 257, 1
	if tall {
		bw, bh = 1, 257
	}
	w, h := 8*bw, 8*bh
	f := f01Frame(w, h, 3, VARDCT)
	f.options.MaxGoroutines = 1
	rf := f.Header.restorationFilter
	rf.epfIterations = 1
	rf.epfChannelScale = []float32{0, 5, 3.5}
	f.LfGlobal = &LFGlobal{globalScale: 32768}
	f.numLFGroups = 2
	f.lfGroupRowStride = 2
	if tall {
		f.lfGroupRowStride = 1
	}
	for g := 0; g < 2; g++ {
		gw, gh := bw, bh
		if tall {
			gh = []int{256, 1}[g]
		} else {
			gw = []int{256, 1}[g]
		}
		lf := &LFGroup{hfMetadata: &HFMetadata{hfMultiplier: util.MakeMatrix2D[int32](gh, gw), hfStreamBuffer: util.MakeMatrix3D[int32](4, gh, gw)}}
		for y := 0; y < gh; y++ {
			for x := 0; x < gw; x++ {
				lf.hfMetadata.hfMultiplier[y][x] = 1
				if 256*g+x+y == at {
					lf.hfMetadata.hfMultiplier[y][x] = 2
					lf.hfMetadata.hfStreamBuffer[3][y][x] = 6
				}
			}
		}
		f.lfGroups = append(f.lfGroups, lf)
	}
	// the last 16 samples before the end of the block (with those after it, if any)
	from, to := 8*at-8, 8*at+16
	if at == 256 {
		to = 8*at + 8
	}
	n := to - from
	target := make([][]float64, 8)
	guide := make([][][]float64, 2)
	for c := 0; c < 3; c++ {
		b := f.Buffer[c].FloatBuffer
		m := make([][]float64, 8)
		if tall {
			m = make([][]float64, n)
		}
		for y := range m {
			m[y] = make([]float64, 8*n/len(m))
			for x := range m[y] {
				var p *float32
				i := 0
				if tall {
					p, i = &b[from+y][x], y
				} else {
					p, i = &b[y][from+x], x
				}
				*p = float32((y*y*3+x*5+c*y*x)%11) / 8192
				if c == 0 && i >= 8 && i < 16 {
					*p = rt.Lin32(float64((3*x+y)%16), float64((3*x+y)%16)+0.03)
				}
				m[y][x] = float64(*p)
			}
		}
		if c == 0 {
			target = m
		} else {
			guide[c-1] = m
		}
	}
	rt.Merge(true)
	err := f.performEdgePreservingFilter()
	rt.Merge(false)
	rt.Assert(err == nil, "frames of several LF groups are filtered")
	if err != nil {
		return
	}
	want := f01Filter(guide, []float64{5, 3.5}, target, 1, 0.9, 6.5, 2.0/3, func(y, x int) float64 {
		i := x
		if tall {
			i = y
		}
		if i < 8 || i >= 16 {
			return 1e9
		}
		return 1 / (0.46 * 6 / 7)
	})
	for y := range want {
		for x := range want[y] {
			var got float32
			if tall {
				got = f.Buffer[0].FloatBuffer[from+y][x]
			} else {
				got = f.Buffer[0].FloatBuffer[y][from+x]
			}
			rt.Close(float64(got), want[y][x], 2e-4, "the strength of the filter follows from the block of the LF group")
		}
	}
	rt.Reach("groups")
}

// VH_F01_Constant: a constant area is left alone by each filter.
func VH_F01_Constant() {
	w, h := 4, 3
	gab := rt.Concrete(rt.Int(0, 1)) == 1
	n := 1 + 2*rt.Concrete(rt.Int(0, 1))
	f := f01Frame(w, h, n, MODULAR)
	f.Header.restorationFilter.epfIterations = 1
	v := make([]float32, n)
	for c := range v {
		v[c] = rt.Lin32(-2, 2)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				f.Buffer[c].FloatBuffer[y][x] = v[c]
			}
		}
	}
	var err error
	rt.Merge(true)
	if gab {
		err = f.performGabConvolution()
	} else {
		err = f.performEdgePreservingFilter()
	}
	rt.Merge(false)
	rt.Assert(err == nil, "planes of any size are filtered")
	for c := range v {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				rt.Close(float64(f.Buffer[c].FloatBuffer[y][x]), float64(v[c]), 2e-5, "a constant plane stays")
			}
		}
	}
	rt.Reach("constant")
}
