package frame

import (
	"math"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: the default tables of all 17 parameter sets up to 64x64 (thorough: 256x256), compared with the format's numbers
// bound: band interpolation for 1 to 4 (thorough 6) bands and tables of 4x4, 4x8 and 8x8, every parameter any finite number below 65536
// bound: Hornuss and DCT2 tables with any one parameter; the other modes from several parameter sets each, through the parser, for every index and mode
// bound: raw tables of 8x8 and 8x16 with any 24-bit entries
// outside: the value of the power function (uninterpreted, but the same in the code and the format); decoding of the modular image of raw tables (M04)

// v05Reader delivers fields chosen by the harness.
type v05Reader struct {
	jxlio.BitReader
	bits []uint64
	f16  []float32
}

func (r *v05Reader) ReadBits(n uint32) (uint64, error) {
	v := r.bits[0]
	r.bits = r.bits[1:]
	return v, nil
}

func (r *v05Reader) ReadF16() (float32, error) {
	v := r.f16[0]
	r.f16 = r.f16[1:]
	return v, nil
}

func (r *v05Reader) ReadBool() (bool, error) {
	v, err := r.ReadBits(1)
	return v == 1, err
}

// v05Bands are the distance bands described by the parameters.
func v05Bands(p []float32) []float32 {
	b := []float32{p[0]}
	for _, v := range p[1:] {
		m := 1 + v
		if v < 0 {
			m = 1 / (1 - v)
		}
		b = append(b, b[len(b)-1]*m)
	}
	return b
}

// v05At interpolates geometrically between the bands.
func v05At(pos float32, b []float32) float32 {
	i := int(pos)
	if i+1 >= len(b) {
		return b[len(b)-1]
	}
	return b[i] * float32(math.Pow(float64(b[i+1]/b[i]), float64(pos)-float64(i)))
}

func v05Table(h, w int, p []float32) [][]float32 {
	b := v05Bands(p)
	scale := float32(len(b)-1) / (math.Sqrt2 + 1e-6)
	t := make([][]float32, h)
	for y := range t {
		dy := float32(y) * scale / float32(h-1)
		for x := 0; x < w; x++ {
			dx := float32(x) * scale / float32(w-1)
			t[y] = append(t[y], v05At(float32(math.Sqrt(float64(dx*dx+dy*dy))), b))
		}
	}
	return t
}

var v05Freqs = [16]float64{0, 0, 0.8517778890324296, 5.37778436506804, 0, 0, 4.734747904497923, 5.449245381693219, 1.6598270267479331, 4,
	7.275749096817861, 10.423227632456525, 2.662932286148962, 7.630657783650829, 8.962388608184032, 12.97166202570235}

func v05AFV(p, p48, p44 []float32) [][]float32 {
	w48, w44 := v05Table(4, 8, p48), v05Table(4, 4, p44)
	b := v05Bands(p[5:9])
	t := util.MakeMatrix2D[float32](8, 8)
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			switch {
			case y%2 == 1:
				t[y][x] = w48[y/2][x]
			case x%2 == 1:
				t[y][x] = w44[y/2][x/2]
			default:
				pos := (v05Freqs[y/2*4+x/2] - 0.8517778890324296) / (12.97166202570235 - 0.8517778890324296) * 3
				t[y][x] = v05At(float32(pos), b)
			}
		}
	}
	t[0][0] = 1
	t[1][0], t[0][1], t[2][0], t[0][2], t[2][2] = p[0], p[1], p[2], p[3], p[4]
	return t
}

func v05Same(got, want float32, label string) {
	if rt.Symbolic() {
		rt.Assert(rt.Same(got, want), label)
		return
	}
	d := math.Abs(float64(got) - float64(want))
	rt.Assert(d <= 1e-4*math.Abs(float64(want)) || rt.Same(got, want), label)
}

func v05Near(got, want float32, label string) {
	d := math.Abs(float64(got) - float64(want))
	rt.Assert(d <= 1e-4*math.Abs(float64(want)), label)
}

// VH_V05_Interpolate: tables of arbitrary bands.
func VH_V05_Interpolate() {
	n := 3
	if rt.Thorough() {
		n = 5
	}
	k := 1 + rt.Concrete(rt.Int(0, n))
	dims := [][2]int{{4, 4}, {4, 8}, {8, 8}}[rt.Concrete(rt.Int(0, 2))]
	signs := rt.Concrete(rt.Int(0, 1<<k-1))
	var p []float32
	var d []float64
	for i := 0; i < k; i++ {
		v := rt.F32()
		if signs>>i&1 == 1 {
			rt.Assume(v >= 0 && v < 65536)
		} else {
			rt.Assume(v < 0 && v > -65536)
		}
		p = append(p, v)
		d = append(d, float64(v))
	}
	rt.Merge(true)
	want := v05Table(dims[0], dims[1], p)
	got := (&HFGlobal{}).getDCTQuantWeights(int32(dims[0]), int32(dims[1]), d)
	rt.Merge(false)
	rt.Assert(len(got) == dims[0] && len(got[0]) == dims[1], "tables have the size of their transform")
	for y := range want {
		for x := range want[y] {
			v05Same(got[y][x], want[y][x], "weights are interpolated between the distance bands")
		}
	}
	rt.Reach("table")
}

// VH_V05_AFV: tables of the AFV transform.
func VH_V05_AFV() {
	var p []float32
	for i := 0; i < 6; i++ {
		v := rt.F32()
		rt.Assume(v >= 1 && v < 1024)
		p = append(p, v)
	}
	p = append(p, [][]float32{{0, 0, 0}, {-0.25, 0.5, -1}, {2, -0.75, 0.125}}[rt.Concrete(rt.Int(0, 2))]...)
	p48 := []float32{2198.05, -0.9, 0.25}
	p44 := []float32{2200, 0.5, -0.25, 0, -0.5}
	var d48, d44 []float64
	for _, v := range p48 {
		d48 = append(d48, float64(v))
	}
	for _, v := range p44 {
		d44 = append(d44, float64(v))
	}
	c := rt.Concrete(rt.Int(0, 2))
	par := DCTParam{mode: MODE_AFV, denominator: 1, param: make([][]float32, 3), dctParam: make([][]float64, 3), params4x4: make([][]float64, 3)}
	par.param[c], par.dctParam[c], par.params4x4[c] = p, d48, d44
	h := &HFGlobal{params: make([]DCTParam, 17)}
	h.params[10] = par
	got, err := h.getAFVTransformWeights(10, c)
	rt.Assert(err == nil, "valid parameters are accepted")
	want := v05AFV(p, p48, p44)
	for y := range want {
		for x := range want[y] {
			v05Same(got[y][x], want[y][x], "AFV weights come from the corner parameters, bands and the tables of its parts")
		}
	}
	rt.Reach("table")
}

// VH_V05_Direct: modes whose parameters are the weights.
func VH_V05_Direct() {
	hornuss := rt.Concrete(rt.Int(0, 1)) == 1
	n, mode := 6, uint64(2)
	if hornuss {
		n, mode = 3, 1
	}
	// one parameter is arbitrary, the others are fixed
	c, at := rt.Concrete(rt.Int(0, 2)), rt.Concrete(rt.Int(0, n-1))
	idx := []int32{0, 1, 2, 3, 9, 10}[(2*c+at)%6]
	r := &v05Reader{bits: []uint64{mode}}
	var p []float32
	for k := 0; k < 3; k++ {
		for i := 0; i < n; i++ {
			v := float32(i + 1)
			if k == c {
				if i == at {
					v = rt.F32()
					rt.Assume(v-v == 0 && v <= 65504 && v >= -65504)
				}
				p = append(p, v)
			}
			r.f16 = append(r.f16, v)
		}
	}
	h := &HFGlobal{params: make([]DCTParam, 17), weights: util.MakeMatrix4D[float32](17, 3, 0, 0)}
	rt.Merge(true)
	err := h.setupDCTParam(r, nil, idx)
	rt.Merge(false)
	rt.Assert(err == nil && len(r.f16) == 0 && len(r.bits) == 0, "all parameters are read")
	rt.Merge(true)
	err = h.generateWeights(int(idx))
	ok := true
	for _, v := range p {
		if !(64*v >= 1e-8 && 64*v <= 1e8) {
			ok = false
		}
	}
	rt.Merge(false)
	if err != nil {
		rt.Assert(!ok, "positive weights are accepted")
		rt.Reach("rejected")
		return
	}
	rt.Assert(ok, "weights that are not positive are rejected")
	w := h.weights[idx][c]
	for y := 0; y < 8; y++ {
		for x := 0; x < 8; x++ {
			var i int
			m := max(x, y)
			switch {
			case m == 0:
				rt.Assert(w[y][x] == 1, "the mean has weight one")
				continue
			case hornuss:
				i = 0
				if m == 1 {
					i = x + y
				}
			default:
				s := 0
				for m > 1 {
					m /= 2
					s++
				}
				i = 2 * s
				if min(x, y)>>s == 1 {
					i++
				}
			}
			rt.Assert(w[y][x] == 1/(64*p[i]), "weights are the inverses of the parameters")
		}
	}
	rt.Reach("table")
}

// VH_V05_Raw: tables given as images.
func VH_V05_Raw() {
	idx := []int{0, 6}[rt.Concrete(rt.Int(0, 1))]
	n := 8 * 8
	if idx == 6 {
		n *= 2
	}
	den := []float32{0.125, 0.0009765625, 1.5}[rt.Concrete(rt.Int(0, 2))]
	h := &HFGlobal{params: make([]DCTParam, 17), weights: util.MakeMatrix4D[float32](17, 3, 0, 0)}
	m := util.MakeMatrix2D[float32](3, n)
	for c := range m {
		for i := range m[c] {
			m[c][i] = float32(1 + (i*7+c*5)%100)
		}
	}
	c, i := rt.Concrete(rt.Int(0, 2)), []int{0, 9, n - 1}[rt.Concrete(rt.Int(0, 2))]
	v := rt.I32()
	rt.Assume(v > -1<<23 && v < 1<<23)
	m[c][i] = float32(v)
	h.params[idx] = DCTParam{param: m, mode: MODE_RAW, denominator: den}
	err := h.generateWeights(idx)
	if err != nil {
		rt.Assert(v <= 0, "positive entries are accepted")
		rt.Reach("rejected")
		return
	}
	rt.Assert(v > 0, "entries that are not positive are rejected")
	for k := range m {
		for j := range m[k] {
			if k == c || j%11 == 0 {
				rt.Assert(h.weights[idx][k][j/(n/8)][j%(n/8)] == m[k][j]*den, "entries are scaled by the denominator")
			}
		}
	}
	rt.Reach("table")
}

// VH_V05_Modes: every mode of every parameter set, through the parser.
func VH_V05_Modes() {
	idx := int32(rt.Concrete(rt.Int(0, 16)))
	mode := rt.Concrete(rt.Int(0, 6))
	if idx > 10 && mode != 0 && mode < 6 && !rt.Thorough() && idx != 16 {
		return
	}
	if idx > 6 && idx != 9 && idx != 10 && mode == 6 && !rt.Thorough() {
		return
	}
	r := &v05Reader{bits: []uint64{uint64(mode)}}
	vals := func(v ...float32) { r.f16 = append(r.f16, v...) }
	dct := func(p [][]float32) [][]float32 {
		r.bits = append(r.bits, uint64(len(p[0])-1))
		out := make([][]float32, 3)
		for c := range p {
			vals(p[c]...)
			out[c] = append([]float32{p[c][0] * 64}, p[c][1:]...)
		}
		return out
	}
	set := rt.Concrete(rt.Int(0, 2))
	bandsA := [][][]float32{
		{{30, 0.5, -0.25, -1.5}, {20, 1, 1, 1}, {8, -0.125, 0, -2}},
		{{3}, {2.5}, {0.015625}},
		{{1, -0.5, 0.25, 0, 2, -3, 1, 1}, {7, 1, -1, 1, -1, 1, -1, 1}, {100, -0.25, -0.25, -0.25, -0.25, 0.5, 0.5, 0.5}},
	}[set]
	bandsB := [][][]float32{{{4, 0.75}, {3, -0.75}, {2, 0}}, {{5, 1, 1}, {6, 2, -2}, {7, -1, 0}}, {{1.5}, {2.5}, {3.5}}}[set]
	want := make([][][]float32, 3)
	switch mode {
	case 3:
		mul := [][]float32{{1, 1}, {0.5, 2}, {3, 0.25}}
		for c := range mul {
			vals(mul[c]...)
		}
		p := dct(bandsA)
		for c := range want {
			t := v05Table(4, 4, p[c])
			want[c] = util.MakeMatrix2D[float32](8, 8)
			for y := range want[c] {
				for x := range want[c][y] {
					want[c][y][x] = t[y/2][x/2]
				}
			}
			want[c][0][1] /= mul[c][0]
			want[c][1][0] /= mul[c][0]
			want[c][1][1] /= mul[c][1]
		}
	case 4:
		mul := []float32{1, 0.5, 3}
		vals(mul...)
		p := dct(bandsA)
		for c := range want {
			t := v05Table(4, 8, p[c])
			want[c] = util.MakeMatrix2D[float32](8, 8)
			for y := range want[c] {
				for x := range want[c][y] {
					want[c][y][x] = t[y/2][x]
				}
			}
			want[c][1][0] /= mul[c]
		}
	case 5:
		var p [3][9]float32
		for c := range p {
			for i := range p[c] {
				v := float32(1+(i*5+c*3)%7) / 2
				if i > 5 {
					v = v/4 - 0.5
				}
				vals(v)
				if i < 6 {
					v *= 64
				}
				p[c][i] = v
			}
		}
		a, b := dct(bandsA), dct(bandsB)
		for c := range want {
			want[c] = v05AFV(p[c][:], a[c], b[c])
		}
	case 6:
		p := dct(bandsA)
		for i := range allDCT {
			if tt := &allDCT[i]; tt.parameterIndex == idx {
				for c := range want {
					want[c] = v05Table(int(min(tt.pixelHeight, tt.pixelWidth)), int(max(tt.pixelHeight, tt.pixelWidth)), p[c])
				}
			}
		}
	case 1, 2:
		for i := 0; i < 18; i++ {
			vals(1)
		}
	}
	h := &HFGlobal{params: make([]DCTParam, 17), weights: util.MakeMatrix4D[float32](17, 3, 0, 0)}
	err := h.setupDCTParam(r, nil, idx)
	small := idx < 4 || idx == 9 || idx == 10
	if !small && mode != 0 && mode < 6 {
		rt.Assert(err != nil, "modes of 8x8 blocks are rejected for other transforms")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "all modes are accepted")
	if mode < 3 {
		// see Direct and Default
		return
	}
	rt.Assert(len(r.f16) == 0 && len(r.bits) == 0, "all parameters are read")
	rt.Assert(h.generateWeights(int(idx)) == nil, "valid parameters are accepted")
	for c := range want {
		for y := range want[c] {
			for x := range want[c][y] {
				v05Near(h.weights[idx][c][y][x], 1/want[c][y][x], "weights are those of the mode and its parameters")
			}
		}
	}
	rt.Reach("table")
}

var v05Default = [17][3][]float32{
	{{3150.0, 0.0, -0.4, -0.4, -0.4, -2.0}, {560.0, 0.0, -0.3, -0.3, -0.3, -0.3}, {512.0, -2.0, -1.0, 0.0, -1.0, -2.0}},
	{}, {}, {},
	{{8996.87257, -1.3000777, -0.4942453, -0.43909377, -0.635010183, -0.901772640, -1.616209924},
		{3191.48366, -0.674245821, -0.807458134, -0.449258375, -0.35865441, -0.313223891, -0.376150253},
		{1157.504081, -2.053142317, -1.4, -0.5068713, -0.427087306, -1.485683454, -4.920914288}},
	{{15718.408310, -1.025, -0.98, -0.9012, -0.4, -0.48819395464, -0.421064, -0.27},
		{7305.763681, -0.8041958212, -0.7633036457, -0.5566037999, -0.49785304658, -0.436995926835, -0.40180866526, -0.2732168312535},
		{3803.5317372, -3.060733579805, -2.0413270132, -2.0235650159727, -0.54953899509, -0.4, -0.4, -0.3}},
	{{7240.7734393502, -0.7, -0.7, -0.2, -0.2, -0.2, -0.5}, {1448.15468787, -0.5, -0.5, -0.5, -0.2, -0.2, -0.2}, {506.854140754517, -1.4, -0.2, -0.5, -0.5, -1.5, -3.6}},
	{{16283.2494710, -1.78128453365, -1.63090590126, -1.03821790343, -0.85, -0.7, -0.9, -1.23606385768},
		{5089.15750884, -0.320049391, -0.353628499, -0.3034, -0.61, -0.5, -0.5, -0.6},
		{3397.776032750, -0.321327362693, -0.345076192231, -0.7034, -0.9, -1.0, -1.0, -1.17546057576}},
	{{13844.9707644, -0.971138, -0.658, -0.42026, -0.22712, -0.2206, -0.226, -0.6},
		{4798.96408422, -0.61125308982767, -0.837707865524, -0.790148624794, -0.26927274597, -0.38272769465, -0.2292422265309, -0.20719098826},
		{1807.23694676, -1.2, -1.2, -0.7, -0.7, -0.7, -0.4, -0.5}},
	{{2198.05055601, -0.96269623, -0.7619425302, -0.65511406707},
		{764.36552486, -0.926302008883, -0.96752296035, -0.27845290869},
		{527.10757358, -1.45943858112, -1.45008209409, -1.58437225119}},
	{{3072, 3072, 256, 256, 256, 414, 0, 0, 0}, {1024, 1024, 50, 50, 50, 58, 0, 0, 0}, {384, 384, 12, 12, 12, 22, -0.25, -0.25, -0.25}},
}

var v05Large = [3][]float32{
	{-1.025, -0.78, -0.65012, -0.19041574084, -0.20819395464, -0.421064, -0.327338455358},
	{-0.30419582123, -0.363303645748, -0.356603799901, -0.344307445542, -0.336995926835, -0.301808665262, -0.2732168312535},
	{-1.2, -1.2, -0.8, -0.7, -0.7, -0.4, -0.5},
}

var v05First = [6][3]float32{
	{0.9 * 26629.073922049845, 0.9 * 9311.3238710010046, 0.9 * 4992.2486445538634},
	{0.65 * 23629.073922049845, 0.65 * 8611.3238710010046, 0.65 * 4492.2486445538634},
	{1.8 * 26629.073922049845, 1.8 * 9311.3238710010046, 1.8 * 4992.2486445538634},
	{1.3 * 23629.073922049845, 1.3 * 8611.3238710010046, 1.3 * 4492.2486445538634},
	{3.6 * 26629.073922049845, 3.6 * 9311.3238710010046, 3.6 * 4992.2486445538634},
	{2.6 * 23629.073922049845, 2.6 * 9311.3238710010046, 2.6 * 4992.2486445538634},
}

// VH_V05_Default: the default tables.
func VH_V05_Default() {
	idx := rt.Concrete(rt.Int(0, 16))
	if idx > 12 && !rt.Thorough() {
		return
	}
	lib := rt.Concrete(rt.Int(0, 1)) == 1
	h := &HFGlobal{params: defaultParams, weights: util.MakeMatrix4D[float32](17, 3, 0, 0)}
	if lib {
		if idx > 4 {
			return
		}
		h.params = make([]DCTParam, 17)
		rt.Assert(h.setupDCTParam(&v05Reader{bits: []uint64{0}}, nil, int32(idx)) == nil, "default tables can be chosen")
	}
	rt.Assert(h.generateWeights(idx) == nil, "the default parameters are valid")
	for c := 0; c < 3; c++ {
		var t [][]float32
		t44 := v05Table(4, 4, [][]float32{{2200, 0, 0, 0}, {392, 0, 0, 0}, {112, -0.25, -0.25, -0.5}}[c])
		t48 := v05Table(4, 8, v05Default[9][c])
		switch idx {
		case 1:
			p := [][]float32{{280, 3160, 3160}, {60, 864, 864}, {18, 200, 200}}[c]
			t = v05Fill(8, 8, p[0])
			t[0][0], t[0][1], t[1][0], t[1][1] = 1, p[1], p[1], p[2]
		case 2:
			p := [][]float32{{3840, 2560, 1280, 640, 480, 300}, {960, 640, 320, 180, 140, 120}, {640, 320, 128, 64, 32, 16}}[c]
			t = v05Fill(8, 8, p[5])
			for s := 4; s > 0; s /= 2 {
				k := map[int]int{4: 4, 2: 2, 1: 0}[s]
				for y := 0; y < s; y++ {
					for x := 0; x < s; x++ {
						t[y][x+s], t[y+s][x], t[y+s][x+s] = p[k], p[k], p[k+1]
					}
				}
			}
			t[0][0] = 1
		case 3:
			t = v05Fill(8, 8, 0)
			for y := range t {
				for x := range t[y] {
					t[y][x] = t44[y/2][x/2]
				}
			}
		case 9:
			t = v05Fill(8, 8, 0)
			for y := range t {
				for x := range t[y] {
					t[y][x] = t48[y/2][x]
				}
			}
		case 10:
			t = v05AFV(v05Default[10][c], v05Default[9][c], [][]float32{{2200, 0, 0, 0}, {392, 0, 0, 0}, {112, -0.25, -0.25, -0.5}}[c])
		default:
			p := v05Default[idx%11][c]
			if idx > 10 {
				p = append([]float32{v05First[idx-11][c]}, v05Large[c]...)
			}
			d := [17][2]int{0: {8, 8}, 4: {16, 16}, 5: {32, 32}, 6: {8, 16}, 7: {8, 32}, 8: {16, 32}, 11: {64, 64}, 12: {32, 64},
				13: {128, 128}, 14: {64, 128}, 15: {256, 256}, 16: {128, 256}}[idx]
			t = v05Table(d[0], d[1], p)
		}
		got := h.weights[idx][c]
		rt.Assert(len(got) == len(t) && len(got[0]) == len(t[0]), "tables have the size of their transform")
		for y := range t {
			for x := range t[y] {
				v05Near(got[y][x], 1/t[y][x], "default weights are those of the format")
			}
		}
	}
	rt.Reach("table")
}

func v05Fill(h, w int, v float32) [][]float32 {
	m := util.MakeMatrix2D[float32](h, w)
	for y := range m {
		for x := range m[y] {
			m[y][x] = v
		}
	}
	return m
}
