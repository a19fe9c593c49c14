package frame

import (
	"math"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: every special 8x8 transform and the plain one, every channel, at every place of a 2x2 block area in the first and second group, with and without subsampled channels: all 64 coefficients arbitrary reals in [-1,1]; tolerance 2e-3 (about 3e-5 per coefficient)
// outside: the larger transforms (V01), which use the same entry point; coefficient magnitudes above one (the maps are linear)

// the basis of the AFV corner transform, in the order of its coefficients
var v02Basis = [16][16]float64{
	{0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25, 0.25},
	{0.876902929799142, 0.2206518106944235, -0.10140050393753763, -0.1014005039375375, 0.2206518106944236, -0.10140050393753777, -0.10140050393753772, -0.10140050393753763, -0.10140050393753758, -0.10140050393753769, -0.1014005039375375, -0.10140050393753768, -0.10140050393753768, -0.10140050393753759, -0.10140050393753763, -0.10140050393753741},
	{0.0, 0.0, 0.40670075830260755, 0.44444816619734445, 0.0, 0.0, 0.19574399372042936, 0.2929100136981264, -0.40670075830260716, -0.19574399372042872, 0.0, 0.11379074460448091, -0.44444816619734384, -0.29291001369812636, -0.1137907446044814, 0.0},
	{0.0, 0.0, -0.21255748058288748, 0.3085497062849767, 0.0, 0.4706702258572536, -0.1621205195722993, 0.0, -0.21255748058287047, -0.16212051957228327, -0.47067022585725277, -0.1464291867126764, 0.3085497062849487, 0.0, -0.14642918671266536, 0.4251149611657548},
	{0.0, -0.7071067811865474, 0.0, 0.0, 0.7071067811865476, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0},
	{-0.4105377591765233, 0.6235485373547691, -0.06435071657946274, -0.06435071657946266, 0.6235485373547694, -0.06435071657946284, -0.0643507165794628, -0.06435071657946274, -0.06435071657946272, -0.06435071657946279, -0.06435071657946266, -0.06435071657946277, -0.06435071657946277, -0.06435071657946273, -0.06435071657946274, -0.0643507165794626},
	{0.0, 0.0, -0.4517556589999482, 0.15854503551840063, 0.0, -0.04038515160822202, 0.0074182263792423875, 0.39351034269210167, -0.45175565899994635, 0.007418226379244351, 0.1107416575309343, 0.08298163094882051, 0.15854503551839705, 0.3935103426921022, 0.0829816309488214, -0.45175565899994796},
	{0.0, 0.0, -0.304684750724869, 0.5112616136591823, 0.0, 0.0, -0.290480129728998, -0.06578701549142804, 0.304684750724884, 0.2904801297290076, 0.0, -0.23889773523344604, -0.5112616136592012, 0.06578701549142545, 0.23889773523345467, 0.0},
	{0.0, 0.0, 0.3017929516615495, 0.25792362796341184, 0.0, 0.16272340142866204, 0.09520022653475037, 0.0, 0.3017929516615503, 0.09520022653475055, -0.16272340142866173, -0.35312385449816297, 0.25792362796341295, 0.0, -0.3531238544981624, -0.6035859033230976},
	{0.0, 0.0, 0.40824829046386274, 0.0, 0.0, 0.0, 0.0, -0.4082482904638628, -0.4082482904638635, 0.0, 0.0, -0.40824829046386296, 0.0, 0.4082482904638634, 0.408248290463863, 0.0},
	{0.0, 0.0, 0.1747866975480809, 0.0812611176717539, 0.0, 0.0, -0.3675398009862027, -0.307882213957909, -0.17478669754808135, 0.3675398009862011, 0.0, 0.4826689115059883, -0.08126111767175039, 0.30788221395790305, -0.48266891150598584, 0.0},
	{0.0, 0.0, -0.21105601049335784, 0.18567180916109802, 0.0, 0.0, 0.49215859013738733, -0.38525013709251915, 0.21105601049335806, -0.49215859013738905, 0.0, 0.17419412659916217, -0.18567180916109904, 0.3852501370925211, -0.1741941265991621, 0.0},
	{0.0, 0.0, -0.14266084808807264, -0.3416446842253372, 0.0, 0.7367497537172237, 0.24627107722075148, -0.08574019035519306, -0.14266084808807344, 0.24627107722075137, 0.14883399227113567, -0.04768680350229251, -0.3416446842253373, -0.08574019035519267, -0.047686803502292804, -0.14266084808807242},
	{0.0, 0.0, -0.13813540350758585, 0.3302282550303788, 0.0, 0.08755115000587084, -0.07946706605909573, -0.4613374887461511, -0.13813540350758294, -0.07946706605910261, 0.49724647109535086, 0.12538059448563663, 0.3302282550303805, -0.4613374887461554, 0.12538059448564315, -0.13813540350758452},
	{0.0, 0.0, -0.17437602599651067, 0.0702790691196284, 0.0, -0.2921026642334881, 0.3623817333531167, 0.0, -0.1743760259965108, 0.36238173335311646, 0.29210266423348785, -0.4326608024727445, 0.07027906911962818, 0.0, -0.4326608024727457, 0.34875205199302267},
	{0.0, 0.0, 0.11354987314994337, -0.07417504595810355, 0.0, 0.19402893032594343, -0.435190496523228, 0.21918684838857466, 0.11354987314994257, -0.4351904965232251, 0.5550443808910661, -0.25468277124066463, -0.07417504595810233, 0.2191868483885728, -0.25468277124066413, 0.1135498731499429},
}

type v02Coefs [8][8]float64

func v02Cos(k, n, i int) float64 {
	if k == 0 {
		return 1
	}
	return math.Sqrt2 * math.Cos(math.Pi*float64(k)*(float64(i)+0.5)/float64(n))
}

// v02Sum adds weighted coefficients; zero weights are left out.
type v02Sum struct{ v float64 }

func (s *v02Sum) add(w, c float64) {
	if w != 0 {
		s.v += w * c
	}
}

func v02Sign(neg bool) float64 {
	if neg {
		return -1
	}
	return 1
}

// v02Haar is sample (i,j) of an n x n block coded as nested 2x2 means and differences.
func v02Haar(s *v02Sum, c *v02Coefs, n, i, j int, w float64) {
	s.add(w, c[0][0])
	for m := 2; m <= n; m *= 2 {
		a, b := i*m/n, j*m/n
		h := m / 2
		down, right := a&1 == 1, b&1 == 1
		s.add(w*v02Sign(down), c[a/2][h+b/2])
		s.add(w*v02Sign(right), c[h+a/2][b/2])
		s.add(w*v02Sign(down != right), c[h+a/2][h+b/2])
	}
}

// v02Sample is the sample in row i and column j that the format defines.
func v02Sample(kind int32, c *v02Coefs, i, j int) float64 {
	s := &v02Sum{}
	switch kind {
	case 0: // DCT 8x8
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				s.add(v02Cos(y, 8, i)*v02Cos(x, 8, j), c[y][x])
			}
		}
	case 1: // Hornuss: every quarter is its mean plus residuals
		qy, qx, iy, ix := i/4, j/4, i%4, j%4
		v02Haar(s, c, 2, qy, qx, 1)
		// the sample at (1,1) has no residual of its own: it makes the mean come out
		for y := 0; y < 4; y++ {
			for x := 0; x < 4; x++ {
				if y+x > 0 {
					w := -1.0 / 16
					if iy == y && ix == x && !(y == 1 && x == 1) || iy+ix == 0 && y == 1 && x == 1 {
						w += 1
					}
					s.add(w, c[qy+2*y][qx+2*x])
				}
			}
		}
	case 2: // DCT 2x2
		v02Haar(s, c, 8, i, j, 1)
	case 3: // DCT 4x4
		qy, qx := i/4, j/4
		v02Haar(s, c, 2, qy, qx, 1)
		for y := 0; y < 4; y++ {
			for x := 0; x < 4; x++ {
				if y+x > 0 {
					s.add(v02Cos(x, 4, i%4)*v02Cos(y, 4, j%4), c[qy+2*y][qx+2*x])
				}
			}
		}
	case 12, 13: // DCT 4x8 and 8x4
		half, r, k := i/4, i%4, j
		if kind == 13 {
			half, r, k = j/4, j%4, i
		}
		s.add(1, c[0][0])
		s.add(v02Sign(half == 1), c[1][0])
		for y := 0; y < 4; y++ {
			for x := 0; x < 8; x++ {
				if y+x > 0 {
					s.add(v02Cos(y, 4, r)*v02Cos(x, 8, k), c[half+2*y][x])
				}
			}
		}
	default: // AFV: the corner, the square beside it and the half below or above
		flipX, flipY := (kind-14)&1 == 1, (kind-14)>>1 == 1
		cornerX, cornerY := (j >= 4) == flipX, (i >= 4) == flipY
		switch {
		case cornerX && cornerY:
			y, x := i%4, j%4
			if flipY {
				y = 3 - y
			}
			if flipX {
				x = 3 - x
			}
			w := v02Basis[0][4*y+x] * 4
			s.add(w, c[0][0])
			s.add(w, c[1][0])
			s.add(w, c[0][1])
			for k := 1; k < 16; k++ {
				s.add(v02Basis[k][4*y+x], c[2*(k/4)][2*(k%4)])
			}
		case cornerY:
			s.add(1, c[0][0])
			s.add(1, c[1][0])
			s.add(-1, c[0][1])
			for y := 0; y < 4; y++ {
				for x := 0; x < 4; x++ {
					if y+x > 0 {
						s.add(v02Cos(x, 4, i%4)*v02Cos(y, 4, j%4), c[2*y][2*x+1])
					}
				}
			}
		default:
			s.add(1, c[0][0])
			s.add(-1, c[1][0])
			for y := 0; y < 4; y++ {
				for x := 0; x < 8; x++ {
					if y+x > 0 {
						s.add(v02Cos(y, 4, i%4)*v02Cos(x, 8, j), c[1+2*y][x])
					}
				}
			}
		}
	}
	return s.v
}

func v02Matrix(h, w int, v float32) [][]float32 {
	m := util.MakeMatrix2D[float32](h, w)
	for y := range m {
		for x := range m[y] {
			m[y][x] = v
		}
	}
	return m
}

// VH_V02_Block: one block of arbitrary coefficients among blocks of constant colour.
func VH_V02_Block() {
	kinds := []int32{0, 1, 2, 3, 12, 13, 14, 15, 16, 17}
	kind := kinds[rt.Concrete(rt.Int(0, len(kinds)-1))]
	place := rt.Concrete(rt.Int(0, 3))
	by, bx := int32(place/2), int32(place%2)
	ch := place % 3
	if rt.Thorough() {
		ch = rt.Concrete(rt.Int(0, 2))
	}
	sub := rt.Concrete(rt.Int(0, 1)) == 1
	group := int32(1)
	if sub {
		group = 0
	}
	if rt.Thorough() {
		group = int32(rt.Concrete(rt.Int(0, 1)))
	}
	blocksX := int32(2) + 32*group
	var shift [3]int32
	if sub {
		shift[0], shift[2] = 1, 1
		if by+bx > 0 {
			ch = 1
		}
	}
	var tt *TransformType
	for i := range allDCT {
		if allDCT[i].ttType == kind {
			tt = &allDCT[i]
		}
	}
	lf := &LFGroup{size: util.Dimension{Width: uint32(blocksX), Height: 2}}
	lf.hfMetadata = &HFMetadata{
		dctSelect:      util.MakeMatrix2D[*TransformType](2, int(blocksX)),
		hfMultiplier:   util.MakeMatrix2D[int32](2, int(blocksX)),
		hfStreamBuffer: [][][]int32{{make([]int32, 5)}, {make([]int32, 5)}},
	}
	plain := &allDCT[0]
	lf.lfCoeff = &LFCoefficients{dequantLFCoeff: make([][][]float32, 3)}
	frameBuffer := make([][][]float32, 3)
	hf := &HFCoefficients{lfg: lf, groupID: uint32(group), groupPos: util.Point{X: 32 * group}}
	hf.quantizedCoeffs = make([][][]int32, 3)
	hf.dequantHFCoeff = make([][][]float32, 3)
	weights := util.MakeMatrix4D[float32](17, 3, 0, 0)
	zero := v02Matrix(8, 8, 0)
	for i := range weights {
		for c := range weights[i] {
			weights[i][c] = zero
		}
	}
	for c := 0; c < 3; c++ {
		lf.lfCoeff.dequantLFCoeff[c] = v02Matrix(2>>shift[c], int(blocksX)>>shift[c], 0.5)
		frameBuffer[c] = v02Matrix(16>>shift[c], int(blocksX)*8>>shift[c], 99)
		hf.quantizedCoeffs[c] = util.MakeMatrix2D[int32](16>>shift[c], 16>>shift[c])
		hf.dequantHFCoeff[c] = util.MakeMatrix2D[float32](16>>shift[c], 16>>shift[c])
	}
	var coef v02Coefs
	w := v02Matrix(8, 8, 0)
	sy, sx := by>>shift[ch], bx>>shift[ch]
	for y := int32(0); y < 8; y++ {
		for x := int32(0); x < 8; x++ {
			v := rt.Lin32(-1, 1)
			coef[y][x] = float64(v)
			if y+x == 0 {
				lf.lfCoeff.dequantLFCoeff[ch][sy][sx+(32*group)>>shift[ch]] = v
				continue
			}
			hf.quantizedCoeffs[ch][8*sy+y][8*sx+x] = 1
			if kind == 0 {
				w[x][y] = v
			} else {
				w[y][x] = v
			}
		}
	}
	weights[tt.parameterIndex][ch] = w
	for y := int32(0); y < 2; y++ {
		for x := int32(0); x < 2; x++ {
			lf.hfMetadata.dctSelect[y][x+32*group] = plain
			lf.hfMetadata.hfMultiplier[y][x+32*group] = 1
			hf.blocks = append(hf.blocks, &util.Point{X: x + 32*group, Y: y})
		}
	}
	lf.hfMetadata.dctSelect[by][bx+32*group] = tt
	f := &Frame{
		Header: &FrameHeader{
			Encoding: VARDCT, groupDim: 256, lfGroupDim: 2048, xqmScale: 2, bqmScale: 2,
			jpegUpsamplingX: shift[:], jpegUpsamplingY: shift[:],
			Bounds: &util.Rectangle{Size: util.Dimension{Width: uint32(blocksX) * 8, Height: 16}},
		},
		GlobalMetadata:   &bundle.ImageHeader{OpsinInverseMatrix: &colour.OpsinInverseMatrix{QuantBias: []float32{1, 1, 1}, QuantBiasNumerator: 0}},
		hfGlobal:         &HFGlobal{weights: weights, numHFPresets: 1},
		LfGlobal:         &LFGlobal{globalScale: 65536, lfChanCorr: &LFChannelCorrelation{colorFactor: 84}},
		lfGroups:         []*LFGroup{lf},
		groupRowStride:   uint32(group) + 1,
		lfGroupRowStride: 1, numGroups: uint32(group) + 1, numLFGroups: 1,
	}
	hf.frame = f
	lf.frame = f
	g := &PassGroup{frame: f, groupID: uint32(group), hfCoefficients: hf, lfg: lf}
	rt.Assert(g.invertVarDCT(frameBuffer, nil) == nil, "groups are transformed")
	for c := 0; c < 3; c++ {
		for y := range frameBuffer[c] {
			for x := range frameBuffer[c][y] {
				gx := x - 256*int(group)>>shift[c]
				switch {
				case gx < 0:
					if y == 3 && gx > -9 {
						rt.Assert(frameBuffer[c][y][x] == 99, "other groups are left alone")
					}
				case c == ch && y>>3 == int(sy) && gx>>3 == int(sx):
					rt.Close(float64(frameBuffer[c][y][x]), v02Sample(kind, &coef, y&7, gx&7), 2e-3, "samples are the transform of the block's coefficients")
				default:
					d := frameBuffer[c][y][x] - 0.5
					rt.Assert(d < 1e-4 && d > -1e-4, "other blocks have no part in it")
				}
			}
		}
	}
	rt.Reach("transformed")
}
