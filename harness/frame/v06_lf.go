package frame

import (
	"bytes"
	"math"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: LF groups of 1x1 to 3x4 blocks with every chroma subsampling, every extra precision, every correlation factor with six colour factors; quantisation steps, base correlations and luma samples are arbitrary reals in stated ranges
// bound: one to three thresholds per channel and any quantised LF values within 8 bits
// bound: LF smoothing on planes up to 4x5 whose samples are arbitrary reals around none or one outstanding sample
// bound: HF blocks of every transform of up to 16x16 samples (quick) or 64x64 (thorough) on every place of a group, quantised coefficients -3 to 3 and large ones, arbitrary weights, biases and tile factors; tolerance 1e-5 relative
// bound: LF samples of every transform up to 32x32 (quick) or 128x128 (thorough) samples, arbitrary reals in [-1,1]
// bound: LF samples of an LF frame, arbitrary reals, in the first and second LF group
// outside: blocks that span several 64x64 tiles (chroma from luma)

type v06Framer struct {
	symFramer
	lfg  LFGlobal
	hfg  HFGlobal
	size util.Dimension
}

func (f *v06Framer) getLFGlobal() *LFGlobal { return &f.lfg }
func (f *v06Framer) getHFGlobal() *HFGlobal { return &f.hfg }

type v06Stream struct {
	ModularStreamer
	buf  [][][]int32
	runs int
}

func (s *v06Stream) decodeChannels(r jxlio.BitReader, partial bool) error { s.runs++; return nil }
func (s *v06Stream) getDecodedBuffer() [][][]int32                        { return s.buf }

type v06Bits struct {
	jxlio.BitReader
	v     uint64
	n     uint32
	calls int
}

func (b *v06Bits) ReadBits(n uint32) (uint64, error) { b.n = n; b.calls++; return b.v, nil }

// v06LF decodes LF coefficients; quant is in the order Y, X, B.
func v06LF(f *v06Framer, h, w int, precision int, quant [][][]int32) *LFCoefficients {
	g := &LFGroup{lfGroupID: 3, size: util.Dimension{Width: uint32(w), Height: uint32(h)}, frame: f}
	r := &v06Bits{v: uint64(precision)}
	s := &v06Stream{buf: quant}
	order := [3]int{1, 0, 2}
	lf, err := NewLFCoefficientsWithReader(r, g, f, nil, func(rd jxlio.BitReader, fr Framer, index, n, ec int, ch []ModularChannel) (ModularStreamer, error) {
		rt.Assert(index == 1+3 && n == 3 && ec == 0 && len(ch) == 3, "LF samples are in the stream of their LF group")
		for i, c := range order {
			rt.Assert(int(ch[i].size.Height) == h>>f.header.jpegUpsamplingY[c] && int(ch[i].size.Width) == w>>f.header.jpegUpsamplingX[c], "LF channels are Y, X and B in their own sizes")
		}
		return s, nil
	})
	rt.Assert(err == nil, "LF samples are decoded")
	rt.Assert(r.n == 2 && r.calls == 1 && s.runs == 1, "two bits of extra precision and one stream are read")
	return lf
}

func v06Frame() *v06Framer {
	f := &v06Framer{symFramer: *symFrame(8)}
	f.header.jpegUpsamplingX = []int32{0, 0, 0}
	f.header.jpegUpsamplingY = []int32{0, 0, 0}
	f.header.Flags = SKIP_ADAPTIVE_LF_SMOOTHING
	f.lfg.hfBlockCtx = &HFBlockContext{lfThresholds: [][]int32{nil, nil, nil}}
	f.lfg.lfChanCorr = &LFChannelCorrelation{colorFactor: 84, baseCorrelationB: 1, xFactorLF: 128, bFactorLF: 128}
	return f
}

// VH_V06_Dequant: LF samples are the quantised ones times their steps, plus luma times the correlation.
func VH_V06_Dequant() {
	mode := rt.Concrete(rt.Int(0, 3)) // 3: subsampled
	prec := rt.Concrete(rt.Int(0, 3))
	xf := 128
	cf := 84
	if mode < 3 && prec == 1 {
		xf = rt.Concrete(rt.Int(0, 255))
		cf = []int{84, 256, 2, 257, 258, 65793}[rt.Concrete(rt.Int(0, 5))]
	}
	f := v06Frame()
	h, w := 1, 2
	shift := [3]int{}
	if mode == 3 {
		k := rt.Concrete(rt.Int(1, 7))
		h, w = 4, 4
		for c := 0; c < 3; c++ {
			if k>>c&1 == 1 {
				shift[c] = 1
				f.header.jpegUpsamplingX[c] = 1
				f.header.jpegUpsamplingY[c] = 1
			}
		}
	}
	steps := [3]float32{0.25, 0.5, 0.75}
	baseX, baseB := float32(0.5), float32(1.5)
	switch mode {
	case 0, 3:
		steps[0], steps[2] = rt.Lin32(0, 2), rt.Lin32(0, 2)
		if mode == 3 {
			steps[1] = rt.Lin32(0, 2)
		}
	case 1:
		steps[1] = rt.Lin32(0, 2)
	case 2:
		baseX, baseB = rt.Lin32(-2, 2), rt.Lin32(-2, 2)
	}
	f.lfg.scaledDequant = steps[:]
	f.lfg.lfChanCorr = &LFChannelCorrelation{colorFactor: uint32(cf), baseCorrelationX: baseX, baseCorrelationB: baseB, xFactorLF: uint32(xf), bFactorLF: uint32(255 - xf)}
	cells := []int32{1, -3, 0, 100, -1, 7, 32767, -40, 5, -32768, 2, -2, 9, 11, -13, 17}
	quant := make([][][]int32, 3)
	order := [3]int{1, 0, 2}
	k := 0
	for i, c := range order {
		quant[i] = make([][]int32, h>>shift[c])
		for y := range quant[i] {
			quant[i][y] = make([]int32, w>>shift[c])
			for x := range quant[i][y] {
				quant[i][y][x] = cells[k%len(cells)]
				k++
			}
		}
	}
	lf := v06LF(f, h, w, prec, quant)
	if mode == 0 && prec == 0 {
		// every step of the second channel is used with the first one of the third
		rt.Reach("plain")
	}
	kx := float64(baseX) + float64(xf-128)/float64(cf)
	kb := float64(baseB) + float64(127-xf)/float64(cf)
	for c := 0; c < 3; c++ {
		i := order[c]
		rt.Assert(len(lf.dequantLFCoeff[c]) == h>>shift[c], "LF planes keep their sizes")
		for y := range quant[i] {
			for x := range quant[i][y] {
				want := float64(quant[i][y][x]) * float64(steps[c]) / float64(int(1)<<prec)
				luma := 0.0
				if mode != 3 && c != 1 {
					luma = float64(quant[0][y][x]) / float64(int(1)<<prec)
					switch {
					case mode == 1 && c == 0:
						want += kx * luma * float64(steps[1])
					case mode == 1:
						want += kb * luma * float64(steps[1])
					case c == 0:
						want += luma * 0.5 * kx
					default:
						want += luma * 0.5 * kb
					}
				}
				tol := 1e-4 + 1e-6*(4*math.Abs(float64(quant[i][y][x]))+math.Abs(luma)*160)
				rt.Close(float64(lf.dequantLFCoeff[c][y][x]), want, tol, "LF samples are dequantised and correlated with luma")
			}
		}
	}
	rt.Reach("dequantised")
}

// VH_V06_Index: the index of an LF sample's context.
func VH_V06_Index() {
	f := v06Frame()
	var n [3]int
	if rt.Thorough() {
		for c := range n {
			n[c] = rt.Concrete(rt.Int(0, 3))
		}
	} else {
		k := rt.Concrete(rt.Int(0, 5))
		n = [6][3]int{{0, 0, 0}, {1, 2, 3}, {3, 1, 0}, {0, 1, 2}, {2, 0, 1}, {1, 1, 1}}[k]
	}
	sub := rt.Concrete(rt.Int(0, 3))
	h, w := 2, 2
	shift := [3]int32{}
	if sub < 3 {
		shift[sub] = 1
	}
	f.header.jpegUpsamplingX = shift[:]
	f.header.jpegUpsamplingY = shift[:]
	f.lfg.scaledDequant = []float32{1, 1, 1}
	th := f.lfg.hfBlockCtx.lfThresholds
	for c := range n {
		for i := 0; i < n[c]; i++ {
			th[c] = append(th[c], int32(rt.Int(-128, 127)))
		}
	}
	order := [3]int{1, 0, 2}
	quant := make([][][]int32, 3)
	for i, c := range order {
		quant[i] = util.MakeMatrix2D[int32](h>>shift[c], w>>shift[c])
		for y := range quant[i] {
			for x := range quant[i][y] {
				quant[i][y][x] = int32(rt.Int(-128, 127))
			}
		}
	}
	g := &LFGroup{size: util.Dimension{Width: uint32(w), Height: uint32(h)}, frame: f}
	lf := &LFCoefficients{frame: f, lfIndex: util.MakeMatrix2D[int32](h, w)}
	var want [2][2]int32
	rt.Merge(true)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			var idx [3]int
			for c := range idx {
				v := quant[order[c]][y>>shift[c]][x>>shift[c]]
				for _, t := range th[c] {
					if v > t {
						idx[c]++
					}
				}
			}
			want[y][x] = int32((idx[0]*(n[2]+1)+idx[2])*(n[1]+1) + idx[1])
		}
	}
	err := lf.populatedLFIndex(g, quant)
	rt.Merge(false)
	rt.Assert(err == nil, "LF contexts are found")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			rt.Assert(lf.lfIndex[y][x] == want[y][x], "the LF context is that of the thresholds passed")
		}
	}
	rt.Reach("index")
}

// VH_V06_Smooth: LF smoothing.
func VH_V06_Smooth() {
	shape := rt.Concrete(rt.Int(0, 5))
	h := []int{1, 2, 3, 3, 4, 3}[shape]
	w := []int{3, 3, 2, 3, 5, 1}[shape]
	ch := rt.Concrete(rt.Int(0, 3)) // channel with an outstanding sample
	oy, ox := 1, 1
	if shape == 4 {
		oy, ox = rt.Concrete(rt.Int(0, h-1)), rt.Concrete(rt.Int(0, w-1))
	}
	f := v06Frame()
	f.header.Flags = 0
	skip := rt.Concrete(rt.Int(0, 1)) == 1
	if skip {
		f.header.Flags = SKIP_ADAPTIVE_LF_SMOOTHING
	}
	f.lfg.lfChanCorr = &LFChannelCorrelation{colorFactor: 84, xFactorLF: 128, bFactorLF: 128}
	// the quantisation steps are one, the samples arbitrary
	f.lfg.scaledDequant = []float32{1, 1, 1}
	src := util.MakeMatrix3D[float32](3, h, w)
	cp := util.MakeMatrix3D[float32](3, h, w)
	for c := range src {
		for y := range src[c] {
			for x := range src[c][y] {
				// neighbours alternate around zero, differences have known signs
				src[c][y][x] = rt.Lin32(-0.01, 0.01) + float32(1-2*((y+x)&1))*0.1
				if c == ch && y == oy && x == ox {
					src[c][y][x] += 40
				}
				cp[c][y][x] = src[c][y][x]
			}
		}
	}
	known := rt.Known("V06-smoothing")
	out := cp
	if !skip {
		out = adaptiveSmooth(cp, f.lfg.scaledDequant)
	}
	hit := false
	for c := range src {
		for y := range src[c] {
			for x := range src[c][y] {
				got := float64(out[c][y][x])
				if skip || y == 0 || x == 0 || y+1 == h || x+1 == w {
					rt.Close(got, float64(src[c][y][x]), 1e-5, "samples at the border are not smoothed")
					continue
				}
				s := src[c]
				at := func(dy, dx int) float64 { return float64(s[y+dy][x+dx]) }
				avg := 0.05226273532324128*at(0, 0) +
					0.20345139757231578*(at(-1, 0)+at(1, 0)+at(0, -1)+at(0, 1)) +
					0.0334829185968739*(at(-1, -1)+at(-1, 1)+at(1, -1)+at(1, 1))
				// samples further than a step from their average are kept, those nearer than half a step are averaged
				far := ch < 3 && y-oy <= 1 && oy-y <= 1 && x-ox <= 1 && ox-x <= 1
				want, wrong := avg, at(0, 0)
				if far {
					want, wrong = wrong, want
				}
				if d := got - wrong; known && d < 1e-4 && d > -1e-4 {
					hit = true
					continue
				}
				rt.Close(got, want, 1e-4, "samples are smoothed where they are within half a step of their average")
			}
		}
	}
	if hit {
		rt.KnownHit("V06-smoothing")
	}
	rt.Reach("smoothed")
}

// VH_V06_Pipeline: subsampling excludes smoothing.
func VH_V06_Pipeline() {
	f := v06Frame()
	flags := rt.Concrete(rt.Int(0, 1))
	k := rt.Concrete(rt.Int(0, 5))
	if k < 3 {
		f.header.jpegUpsamplingX[k] = 1
	} else {
		f.header.jpegUpsamplingY[k-3] = 1
	}
	if flags == 0 {
		f.header.Flags = 0
	}
	f.lfg.scaledDequant = []float32{1, 1, 1}
	quant := make([][][]int32, 3)
	for i := range quant {
		quant[i] = util.MakeMatrix2D[int32](2, 2)
	}
	g := &LFGroup{size: util.Dimension{Width: 2, Height: 2}, frame: f}
	_, err := NewLFCoefficientsWithReader(&v06Bits{}, g, f, []image.ImageBuffer{}, func(rd jxlio.BitReader, fr Framer, index, n, ec int, ch []ModularChannel) (ModularStreamer, error) {
		for i, c := range [3]int{1, 0, 2} {
			quant[i] = util.MakeMatrix2D[int32](2>>f.header.jpegUpsamplingY[c], 2>>f.header.jpegUpsamplingX[c])
		}
		return &v06Stream{buf: quant}, nil
	})
	rt.Assert((err != nil) == (flags == 0), "subsampled frames are not smoothed")
	rt.Reach("checked")
}

// VH_V06_Correlation: parameters of the correlation.
func VH_V06_Correlation() {
	d := rt.Bytes(9)
	r := &rt.RefReader{D: d}
	rt.Merge(true)
	var cf, xf, bf uint32 = 84, 128, 128
	var bx, bb uint64
	def := r.U(1) == 1
	if !def {
		switch r.U(2) {
		case 0:
			cf = 84
		case 1:
			cf = 256
		case 2:
			cf = 2 + uint32(r.U(8))
		default:
			cf = 258 + uint32(r.U(16))
		}
		bx = r.U(16)
		bb = r.U(16)
		xf = uint32(r.U(8))
		bf = uint32(r.U(8))
	}
	rt.Merge(false)
	special := !def && (bx>>10&31 == 31 || bb>>10&31 == 31)
	br := jxlio.NewBitStreamReader(bytes.NewReader(d))
	rt.Merge(true)
	lc, err := NewLFChannelCorrelationWithReader(br)
	rt.Merge(false)
	if special {
		rt.Assert(err != nil, "correlations are finite")
		rt.Reach("special")
		return
	}
	rt.Assert(err == nil, "the correlation is read")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the correlation's bits are consumed")
	rt.Assert(lc.colorFactor == cf && lc.xFactorLF == xf && lc.bFactorLF == bf, "factors are those of the format")
	if def {
		rt.Assert(lc.baseCorrelationX == 0 && lc.baseCorrelationB == 1, "the default correlation is zero and one")
		rt.Reach("default")
		return
	}
	rt.Reach("given")
}

// VH_V06_Scale: LF steps follow from the quantiser.
func VH_V06_Scale() {
	kind := rt.Concrete(rt.Int(0, 15))
	sel := []int{0, 1, 2, 3}
	gs, ql := sel[kind/4], sel[kind%4]
	s := &mBits{}
	def := rt.Concrete(rt.Int(0, 1)) == 1
	deq := [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	if def {
		s.put(1, 1)
	} else {
		s.put(0, 1)
		for i, v := range []uint64{0x3C00, 0x4200, 0xB400} { // 1, 3, -0.25
			s.put(v, 16)
			deq[i] = []float64{1, 3, -0.25}[i] / 128
		}
	}
	ext := rt.Concrete(rt.Int(0, 2))
	s.put(uint64(gs), 2)
	n := []int{11, 11, 12, 16}[gs]
	v := []uint64{0, 1<<n - 1, 1 << (n - 1)}[ext]
	s.put(v, n)
	g := []uint64{1, 2049, 4097, 8193}[gs] + v
	s.put(uint64(ql), 2)
	n = []int{0, 5, 8, 16}[ql]
	v = []uint64{0, 1<<n - 1, 1 << n / 2}[ext]
	s.put(v, n)
	q := []uint64{16, 1, 1, 1}[ql] + v
	s.put(1, 1) // correlation
	s.put(0, 1) // no tree
	s.put(0, 64)
	f := v06Frame()
	f.header.Flags = 0
	f.header.Encoding = VARDCT
	f.header.Width, f.header.Height = 8, 8
	br := jxlio.NewBitStreamReader(bytes.NewReader(s.bytes()))
	used := 0
	lg, err := NewLFGlobalWithReader(br, f, func(r jxlio.BitReader, cl func(jxlio.BitReader, []int, int) (int, error)) (*HFBlockContext, error) {
		used++
		return &HFBlockContext{}, nil
	})
	rt.Assert(err == nil && used == 1, "the LF section is read")
	rt.Assert(lg.globalScale == int32(g) && lg.quantLF == int32(q), "the quantiser is that of the format")
	for i := range deq {
		want := 65536 * deq[i] / (float64(g) * float64(q))
		rt.Close(float64(lg.scaledDequant[i]), want, 1e-6*math.Abs(want), "LF steps are scaled by the quantiser")
	}
	rt.Reach("scaled")
}

// VH_V06_Quantizer: a quantiser read by itself.
func VH_V06_Quantizer() {
	kind := rt.Concrete(rt.Int(0, 15))
	gs, ql := kind/4, kind%4
	s := &mBits{}
	s.put(uint64(gs), 2)
	n := []int{11, 11, 12, 16}[gs]
	ext := rt.Concrete(rt.Int(0, 2))
	v := []uint64{0, 1<<n - 1, 1 << (n - 1)}[ext]
	s.put(v, n)
	g := []uint64{1, 2049, 4097, 8193}[gs] + v
	s.put(uint64(ql), 2)
	n = []int{0, 5, 8, 16}[ql]
	v = []uint64{0, 1<<n - 1, 1 << n / 2}[ext]
	s.put(v, n)
	q := []uint64{16, 1, 1, 1}[ql] + v
	s.put(0, 16)
	deq := []float32{1.0 / 4096, 1.0 / 512, 1.0 / 256}
	z, err := NewQuantizerWithReader(jxlio.NewBitStreamReader(bytes.NewReader(s.bytes())), deq)
	rt.Assert(err == nil, "the quantiser is read")
	rt.Assert(uint64(z.globalScale) == g && uint64(z.quantLF) == q, "the quantiser is that of the format")
	for i := range deq {
		want := 65536 * float64(deq[i]) / (float64(g) * float64(q))
		if g*q < 1<<32 {
			rt.Close(float64(z.scaledDequant[i]), want, 1e-6*math.Abs(want), "LF steps are scaled by the quantiser")
		}
	}
	rt.Reach("quantiser")
}

// v06HF is one block in a group of the given size in blocks.
type v06HF struct {
	hf      *HFCoefficients
	lf      *LFGroup
	f       *Frame
	tt      *TransformType
	by, bx  int32 // place within the group
	weights [][][][]float32
}

func v06Block(kind int32, by, bx, group int32, shift [3]int32) *v06HF {
	r := &v06HF{by: by, bx: bx}
	for i := range allDCT {
		if allDCT[i].ttType == kind {
			r.tt = &allDCT[i]
		}
	}
	bh, bw := by+r.tt.pixelHeight/8, bx+r.tt.pixelWidth/8
	bh, bw = bh+bh&1, bw+bw&1
	gy, gx := group/2*32, group%2*32
	lf := &LFGroup{size: util.Dimension{Width: uint32(bw + gx), Height: uint32(bh + gy)}}
	lf.hfMetadata = &HFMetadata{
		dctSelect:    util.MakeMatrix2D[*TransformType](int(bh+gy), int(bw+gx)),
		hfMultiplier: util.MakeMatrix2D[int32](int(bh+gy), int(bw+gx)),
	}
	lf.lfCoeff = &LFCoefficients{dequantLFCoeff: make([][][]float32, 3)}
	hf := &HFCoefficients{lfg: lf, groupID: uint32(group), groupPos: util.Point{X: gx, Y: gy}}
	hf.quantizedCoeffs = make([][][]int32, 3)
	hf.dequantHFCoeff = make([][][]float32, 3)
	for c := 0; c < 3; c++ {
		lf.lfCoeff.dequantLFCoeff[c] = util.MakeMatrix2D[float32](int(bh+gy)>>shift[c], int(bw+gx)>>shift[c])
		hf.quantizedCoeffs[c] = util.MakeMatrix2D[int32](int(bh*8)>>shift[c], int(bw*8)>>shift[c])
		hf.dequantHFCoeff[c] = util.MakeMatrix2D[float32](int(bh*8)>>shift[c], int(bw*8)>>shift[c])
	}
	for y := int32(0); y < r.tt.pixelHeight/8; y++ {
		for x := int32(0); x < r.tt.pixelWidth/8; x++ {
			lf.hfMetadata.dctSelect[by+gy+y][bx+gx+x] = r.tt
			lf.hfMetadata.hfMultiplier[by+gy+y][bx+gx+x] = 3
		}
	}
	hf.blocks = []*util.Point{nil, {X: bx + gx, Y: by + gy}}
	r.weights = util.MakeMatrix4D[float32](17, 3, 0, 0)
	th, tw := r.tt.matrixHeight, r.tt.matrixWidth
	for c := 0; c < 3; c++ {
		r.weights[r.tt.parameterIndex][c] = v06Matrix(int(th), int(tw))
	}
	r.f = &Frame{
		Header: &FrameHeader{
			Encoding: VARDCT, groupDim: 256, lfGroupDim: 2048, xqmScale: 2, bqmScale: 2,
			jpegUpsamplingX: shift[:], jpegUpsamplingY: shift[:],
		},
		GlobalMetadata: &bundle.ImageHeader{OpsinInverseMatrix: &colour.OpsinInverseMatrix{QuantBias: []float32{0.5, 0.25, 0.75}, QuantBiasNumerator: 0.125}},
		hfGlobal:       &HFGlobal{weights: r.weights, numHFPresets: 1},
		LfGlobal:       &LFGlobal{globalScale: 32768, lfChanCorr: &LFChannelCorrelation{colorFactor: 84}},
	}
	hf.frame = r.f
	lf.frame = r.f
	r.hf, r.lf = hf, lf
	return r
}

func v06Matrix(h, w int) [][]float32 {
	m := util.MakeMatrix2D[float32](h, w)
	for y := range m {
		for x := range m[y] {
			m[y][x] = float32(1+y*w+x) / 4096
		}
	}
	return m
}

func v06Kind() int32 {
	n := 20
	kinds := []int32{0, 1, 2, 3, 4, 6, 7, 12, 13, 14, 15, 16, 17, 5, 8, 9, 10, 11, 18, 19, 20}
	if !rt.Thorough() {
		n = 12
	}
	return kinds[rt.Concrete(rt.Int(0, n))]
}

// VH_V06_HF: coefficients are dequantised.
func VH_V06_HF() {
	kind := v06Kind()
	place := rt.Concrete(rt.Int(0, 3))
	group := int32(place)
	by, bx := int32(place/2), int32(place%2)
	var shift [3]int32
	b := v06Block(kind, by, bx, group, shift)
	mode := rt.Concrete(rt.Int(0, 2))
	q := b.f.GlobalMetadata.OpsinInverseMatrix
	switch mode {
	case 0:
		q.QuantBias = []float32{rt.Lin32(0, 1), rt.Lin32(0, 1), rt.Lin32(0, 1)}
	case 1:
		q.QuantBiasNumerator = rt.Lin32(0, 1)
	case 2:
		for c := 0; c < 3; c++ {
			for _, row := range b.weights[b.tt.parameterIndex][c] {
				for x := range row {
					row[x] = rt.Lin32(0, 1)
				}
			}
		}
	}
	b.f.Header.xqmScale = uint32(place * 2)
	b.f.Header.bqmScale = uint32(7 - place*2)
	mul := int32(1 + 5*place)
	b.lf.hfMetadata.hfMultiplier[by+group/2*32][bx+group%2*32] = mul
	b.f.LfGlobal.globalScale = []int32{1, 4096, 65536, 73728}[place]
	cells := []int32{1, 0, -1, 2, -2, 3, -3, 700, 0, -700, 1, -1, 40000}
	th, tw := b.tt.pixelHeight, b.tt.pixelWidth
	for c := 0; c < 3; c++ {
		for y := int32(0); y < th; y++ {
			for x := int32(0); x < tw; x++ {
				b.hf.quantizedCoeffs[c][by*8+y][bx*8+x] = cells[(int(y*tw+x)+4*c)%len(cells)]
			}
		}
	}
	rt.Assert(b.hf.dequantizeHFCoefficients() == nil, "coefficients are dequantised")
	pow := [3]float64{math.Pow(0.8, float64(place*2)-2), 1, math.Pow(0.8, 5-float64(place*2))}
	for c := 0; c < 3; c++ {
		s := 65536 / float64(b.f.LfGlobal.globalScale) * pow[c] / float64(mul)
		for y := int32(0); y < th; y++ {
			for x := int32(0); x < tw; x++ {
				got := b.hf.dequantHFCoeff[c][by*8+y][bx*8+x]
				if y < th/8 && x < tw/8 {
					rt.Assert(got == 0, "LF coefficients come from the LF samples")
					continue
				}
				// weights are stored wider than high, and transposed for the others
				w := b.weights[b.tt.parameterIndex][c]
				var wt float64
				if th > tw || (th == tw && v06Transposed(kind)) {
					wt = float64(w[x][y])
				} else {
					wt = float64(w[y][x])
				}
				v := cells[(int(y*tw+x)+4*c)%len(cells)]
				big := math.Abs(float64(v)) + 1
				tol := 2e-6 * s * big
				// only one of the factors is symbolic
				var want float64
				switch v {
				case 0:
				case 1:
					want = float64(q.QuantBias[c])
				case -1:
					want = -float64(q.QuantBias[c])
				default:
					want = float64(v) - float64(q.QuantBiasNumerator)/float64(v)
				}
				if mode == 2 {
					want = wt * (s * want)
				} else {
					want = want * (s * wt)
				}
				rt.Close(float64(got), want, tol, "coefficients are dequantised by weight, bias and scale")
			}
		}
	}
	rt.Reach("dequantised")
}

// VH_V06_Luma: chroma coefficients get their share of the luma ones.
func VH_V06_Luma() {
	kinds := []int32{0, 4, 6, 7, 5}
	kind := kinds[rt.Concrete(rt.Int(0, len(kinds)-1))]
	tile := rt.Concrete(rt.Int(0, 3))
	group := int32(rt.Concrete(rt.Int(0, 3)))
	by, bx := int32(tile/2*8), int32(tile%2*8)
	var shift [3]int32
	sub := rt.Concrete(rt.Int(0, 3))
	if sub > 0 {
		shift[sub-1] = 1
	}
	b := v06Block(kind, by, bx, group, shift)
	gy, gx := group/2*4, group%2*4
	b.lf.hfMetadata.hfStreamBuffer = [][][]int32{util.MakeMatrix2D[int32](8, 8), util.MakeMatrix2D[int32](8, 8)}
	fs := []int32{-128, 0, 127, 5}
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			b.lf.hfMetadata.hfStreamBuffer[0][y][x] = int32(y*8+x) - 20
			b.lf.hfMetadata.hfStreamBuffer[1][y][x] = int32(y+x*8) - 40
		}
	}
	fx, fb := fs[tile], fs[3-tile]
	b.lf.hfMetadata.hfStreamBuffer[0][by/8+gy][bx/8+gx] = fx
	b.lf.hfMetadata.hfStreamBuffer[1][by/8+gy][bx/8+gx] = fb
	lc := b.f.LfGlobal.lfChanCorr
	lc.colorFactor = []uint32{84, 256, 3, 1000}[group]
	mode := rt.Concrete(rt.Int(0, 1))
	lc.baseCorrelationX, lc.baseCorrelationB = 0.5, 1.25
	if mode == 1 {
		lc.baseCorrelationX, lc.baseCorrelationB = rt.Lin32(-2, 2), rt.Lin32(-2, 2)
	}
	src := make([][][]float32, 3)
	for c := 0; c < 3; c++ {
		d := b.hf.dequantHFCoeff[c]
		src[c] = make([][]float32, len(d))
		for y := range d {
			src[c][y] = make([]float32, len(d[y]))
			for x := range d[y] {
				if mode == 0 && int32(y)/8 >= by && int32(x)/8 >= bx {
					d[y][x] = rt.Lin32(-1, 1)
				} else {
					d[y][x] = float32(y*x%17) - 8
				}
				src[c][y][x] = d[y][x]
			}
		}
	}
	rt.Assert(b.hf.chromaFromLuma() == nil, "luma is added")
	for c := 0; c < 3; c++ {
		for y := range src[c] {
			for x := range src[c][y] {
				want := float64(src[c][y][x])
				in := int32(y) >= by*8 && int32(x) >= bx*8 && int32(y) < by*8+b.tt.pixelHeight && int32(x) < bx*8+b.tt.pixelWidth
				if sub == 0 && in && c != 1 {
					l := float64(src[1][y][x])
					k := float64(lc.baseCorrelationX)
					ff := fx
					if c == 2 {
						k = float64(lc.baseCorrelationB)
						ff = fb
					}
					if mode == 0 {
						want += (k + float64(ff)/float64(lc.colorFactor)) * l
					} else {
						want += l*k + l*float64(ff)/float64(lc.colorFactor)
					}
				}
				rt.Close(float64(b.hf.dequantHFCoeff[c][y][x]), want, 2e-4, "chroma is predicted from luma with the tile's factor")
			}
		}
	}
	rt.Reach("added")
}

// VH_V06_Crossing: blocks that lie in several tiles with the same factors.
func VH_V06_Crossing() {
	by, bx := int32(7), int32(1)
	if rt.Concrete(rt.Int(0, 1)) == 1 {
		by, bx = 1, 7
	}
	b := v06Block(4, by, bx, 0, [3]int32{})
	// the blocks at the corners of the tiles
	for _, q := range []util.Point{{Y: 0, X: 0}, {Y: 8, X: 0}, {Y: 0, X: 8}} {
		if q.Y < int32(len(b.lf.hfMetadata.dctSelect)) && q.X < int32(len(b.lf.hfMetadata.dctSelect[0])) {
			b.lf.hfMetadata.dctSelect[q.Y][q.X] = &allDCT[0]
			p := q
			if q.Y > by || q.Y == by && q.X > bx {
				b.hf.blocks = append(b.hf.blocks, &p)
			} else {
				b.hf.blocks = append([]*util.Point{&p}, b.hf.blocks...)
			}
		}
	}
	b.lf.hfMetadata.hfStreamBuffer = [][][]int32{util.MakeMatrix2D[int32](2, 2), util.MakeMatrix2D[int32](2, 2)}
	for i := 0; i < 4; i++ {
		b.lf.hfMetadata.hfStreamBuffer[0][i/2][i%2] = 42
		b.lf.hfMetadata.hfStreamBuffer[1][i/2][i%2] = -21
	}
	lc := b.f.LfGlobal.lfChanCorr
	lc.baseCorrelationX, lc.baseCorrelationB = 0.25, 1
	d := b.hf.dequantHFCoeff
	l := make([]float32, 256)
	for i := range l {
		l[i] = rt.Lin32(-1, 1)
		d[1][int(by)*8+i/16][int(bx)*8+i%16] = l[i]
	}
	rt.Assert(b.hf.chromaFromLuma() == nil, "luma is added")
	for i := range l {
		y, x := int(by)*8+i/16, int(bx)*8+i%16
		rt.Close(float64(d[0][y][x]), 0.75*float64(l[i]), 1e-5, "chroma is predicted in every part of a block")
		rt.Close(float64(d[2][y][x]), 0.75*float64(l[i]), 1e-5, "chroma is predicted in every part of a block")
	}
	rt.Reach("crossing")
}

// VH_V06_LLF: the lowest coefficients make the means of 8x8 samples equal the LF samples.
func VH_V06_LLF() {
	kinds := []int32{0, 1, 4, 6, 7, 5, 8, 9, 10, 11, 18, 19, 20}
	n := 9
	if rt.Thorough() {
		n = len(kinds) - 1
	}
	kind := kinds[rt.Concrete(rt.Int(0, n))]
	place := rt.Concrete(rt.Int(0, 3))
	by, bx := int32(place/2), int32(place%2)
	ch := place % 3
	var shift [3]int32
	if kind == 0 && place == 0 && rt.Concrete(rt.Int(0, 1)) == 1 {
		shift[0] = 1
	}
	b := v06Block(kind, by, bx, int32(place), shift)
	gy, gx := int32(place)/2*32, int32(place)%2*32
	bh, bw := b.tt.pixelHeight/8, b.tt.pixelWidth/8
	in := b.lf.lfCoeff.dequantLFCoeff[ch]
	v := make([][]float64, bh)
	for y := range v {
		v[y] = make([]float64, bw)
		for x := range v[y] {
			s := rt.Lin32(-1, 1)
			in[(gy+by)>>shift[ch]+int32(y)][(gx+bx)>>shift[ch]+int32(x)] = s
			v[y][x] = float64(s)
		}
	}
	for c := 0; c < 3; c++ {
		for _, row := range b.hf.dequantHFCoeff[c] {
			for x := range row {
				row[x] = 77
			}
		}
	}
	rt.Assert(b.hf.finalizeLLF() == nil, "LF samples are transformed")
	got := b.hf.dequantHFCoeff[ch]
	for y := int32(0); y < b.tt.pixelHeight; y++ {
		for x := int32(0); x < b.tt.pixelWidth; x++ {
			if y >= bh || x >= bw {
				rt.Assert(got[8*by+y][8*bx+x] == 77, "other coefficients are kept")
			}
		}
	}
	shrink := func(n, k int32) float64 {
		if k == 0 {
			return 1
		}
		a := math.Pi * float64(k) / float64(2*n)
		return math.Sin(a) / (8 * math.Sin(a/8))
	}
	for y := int32(0); y < bh; y++ {
		for x := int32(0); x < bw; x++ {
			sum := 0.0
			for i := int32(0); i < bh; i++ {
				for j := int32(0); j < bw; j++ {
					w := v06Cos(int(i), int(bh), int(y)) * v06Cos(int(j), int(bw), int(x)) * shrink(bh, i) * shrink(bw, j)
					sum += w * float64(got[8*by+i][8*bx+j])
				}
			}
			rt.Close(sum, v[y][x], 1e-4, "the means of the block's samples are its LF samples")
		}
	}
	rt.Reach("means")
}

func v06Cos(k, n, i int) float64 {
	if k == 0 {
		return 1
	}
	return math.Sqrt2 * math.Cos(math.Pi*float64(k)*(float64(i)+0.5)/float64(n))
}

// v06Transposed tells whether the coefficients of a square transform are stored transposed.
func v06Transposed(kind int32) bool {
	return kind == 0 || kind == 4 || kind == 5 || kind == 18
}

type v06Located struct {
	v06Framer
	pos util.Point
}

func (f *v06Located) getLFGroupLocation(g int32) *util.Point { return &f.pos }

// VH_V06_Frame: samples of an LF frame are used as they are.
func VH_V06_Frame() {
	f := &v06Located{v06Framer: *v06Frame()}
	g := int32(rt.Concrete(rt.Int(0, 2)))
	f.pos = util.Point{X: g & 1, Y: g >> 1}
	f.header.Flags = USE_LF_FRAME
	f.meta.BitDepth = &bundle.BitDepthHeader{BitsPerSample: 8}
	f.lfg.scaledDequant = []float32{1, 1, 1}
	h, w := 2, 3
	gy, gx := int(f.pos.Y)*256, int(f.pos.X)*256
	buf := make([]image.ImageBuffer, 3)
	v := util.MakeMatrix3D[float32](3, h, w)
	for c := range buf {
		b, err := image.NewImageBuffer(image.TYPE_FLOAT, int32(gy+h), int32(gx+w))
		rt.Assert(err == nil, "a buffer is made")
		for y := range v[c] {
			for x := range v[c][y] {
				v[c][y][x] = rt.Lin32(-1, 1)
				b.FloatBuffer[gy+y][gx+x] = v[c][y][x]
			}
		}
		buf[c] = *b
	}
	r := &v06Bits{}
	calls := 0
	lg := &LFGroup{lfGroupID: g, size: util.Dimension{Width: uint32(w), Height: uint32(h)}, frame: f}
	lf, err := NewLFCoefficientsWithReader(r, lg, f, buf, func(rd jxlio.BitReader, fr Framer, index, n, ec int, ch []ModularChannel) (ModularStreamer, error) {
		calls++
		return &v06Stream{buf: [][][]int32{util.MakeMatrix2D[int32](h, w), util.MakeMatrix2D[int32](h, w), util.MakeMatrix2D[int32](h, w)}}, nil
	})
	rt.Assert(err == nil, "LF samples are taken")
	rt.Assert(calls == 0 && r.calls == 0, "nothing is read")
	for c := range v {
		for y := range v[c] {
			for x := range v[c][y] {
				rt.Close(float64(lf.dequantLFCoeff[c][y][x]), float64(v[c][y][x]), 1e-6, "samples are those of the LF frame")
				rt.Assert(lf.lfIndex[y][x] == 0, "they have no contexts")
			}
		}
	}
	rt.Reach("taken")
}
