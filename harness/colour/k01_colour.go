package colour

import (
	"math"

	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

type k01XY struct{ x, y float64 }

// k01Spaces are the enumerated primaries (red, green, blue) and white points.
var k01Prims = map[int32][3]k01XY{
	1:  {{0.639998686, 0.330010138}, {0.300003784, 0.600003357}, {0.150002046, 0.059997204}},
	9:  {{0.708, 0.292}, {0.17, 0.797}, {0.131, 0.046}},
	11: {{0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}},
}

var k01Whites = map[int32]k01XY{1: {0.3127, 0.3290}, 10: {1.0 / 3, 1.0 / 3}, 11: {0.314, 0.351}}

func k01XYZ(p k01XY) [3]float64 { return [3]float64{p.x / p.y, 1, (1 - p.x - p.y) / p.y} }

type k01Mat [3][3]float64

func (a k01Mat) mul(b k01Mat) (r k01Mat) {
	for i := range r {
		for j := range r {
			for k := range r {
				r[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a k01Mat) vec(v [3]float64) (r [3]float64) {
	for i := range r {
		for k := range r {
			r[i] += a[i][k] * v[k]
		}
	}
	return
}

func (m k01Mat) inv() (r k01Mat) {
	det := 0.0
	for i := 0; i < 3; i++ {
		a, b := (i+1)%3, (i+2)%3
		det += m[0][i] * (m[1][a]*m[2][b] - m[1][b]*m[2][a])
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			a, b := (i+1)%3, (i+2)%3
			c, d := (j+1)%3, (j+2)%3
			r[j][i] = (m[a][c]*m[b][d] - m[a][d]*m[b][c]) / det
		}
	}
	return
}

var k01Bradford = k01Mat{{0.8951, 0.2664, -0.1614}, {-0.7502, 1.7135, 0.0367}, {0.0389, -0.0685, 1.0296}}

func k01ToXYZ(p [3]k01XY, w k01XY) k01Mat {
	var m k01Mat
	for c := 0; c < 3; c++ {
		v := k01XYZ(p[c])
		for i := range v {
			m[i][c] = v[i]
		}
	}
	s := m.inv().vec(k01XYZ(w))
	for c := 0; c < 3; c++ {
		for i := 0; i < 3; i++ {
			m[i][c] *= s[c]
		}
	}
	return m
}

// k01Adapt maps colours under white point a to those under b.
func k01Adapt(b, a k01XY) k01Mat {
	to, from := k01Bradford.vec(k01XYZ(b)), k01Bradford.vec(k01XYZ(a))
	var d k01Mat
	for i := range to {
		d[i][i] = to[i] / from[i]
	}
	return k01Bradford.inv().mul(d).mul(k01Bradford)
}

func k01Conv(tp [3]k01XY, tw k01XY, cp [3]k01XY, cw k01XY) k01Mat {
	return k01ToXYZ(tp, tw).inv().mul(k01Adapt(tw, cw)).mul(k01ToXYZ(cp, cw))
}

func k01Is(p *CIEXY, q k01XY) bool {
	return p != nil && math.Abs(float64(p.X)-q.x) < 1e-6 && math.Abs(float64(p.Y)-q.y) < 1e-6
}

// bound: every 32-bit value of the primaries, white point and transfer enumerations
// bound: all nine enumerated colour spaces and three custom ones as source and target of a conversion; every linear colour in [0,1]^3
// VH_K01_Enums: the enumerated primaries and white points are those of the format; every other value has none.
func VH_K01_Enums() {
	v := rt.I32()
	p, w := GetPrimaries(v), GetWhitePoint(v)
	want, ok := [3]k01XY{}, false
	switch v {
	case 1:
		want, ok = k01Prims[1], true
	case 9:
		want, ok = k01Prims[9], true
	case 11:
		want, ok = k01Prims[11], true
	}
	rt.Assert((p != nil) == ok, "exactly the enumerated primaries exist")
	if ok && p != nil {
		rt.Assert(k01Is(p.Red, want[0]) && k01Is(p.Green, want[1]) && k01Is(p.Blue, want[2]), "primaries have the chromaticities of the format")
	}
	wp, wok := k01XY{}, false
	switch v {
	case 1:
		wp, wok = k01Whites[1], true
	case 10:
		wp, wok = k01Whites[10], true
	case 11:
		wp, wok = k01Whites[11], true
	case -1:
		if rt.Known("K01-d50") {
			if !k01Is(w, k01XY{0.3457, 0.3585}) && !k01Is(w, k01XY{0.34567, 0.3585}) {
				rt.KnownHit("K01-d50")
			}
			return
		}
		rt.Assert(w != nil && math.Abs(float64(w.X)-0.3457) < 1e-3 && math.Abs(float64(w.Y)-0.3585) < 1e-3, "D50 has its chromaticity")
		return
	}
	rt.Assert((w != nil) == wok, "exactly the enumerated white points exist")
	if wok && w != nil {
		rt.Assert(k01Is(w, wp), "white points have the chromaticities of the format")
	}
	rt.Reach("enums")
}

// VH_K01_Valid: exactly the values of the format are accepted.
func VH_K01_Valid() {
	v := rt.I32()
	rt.Assert(ValidateColourEncoding(v) == (v >= 0 && v <= 3), "colour spaces 0 to 3 are valid")
	rt.Assert(ValidateRenderingIntent(v) == (v >= 0 && v <= 3), "rendering intents 0 to 3 are valid")
	rt.Assert(ValidatePrimaries(v) == (v == 1 || v == 2 || v == 9 || v == 11), "primaries 1, 2, 9 and 11 are valid")
	rt.Assert(ValidateWhitePoint(v) == (v == 1 || v == 2 || v == 10 || v == 11), "white points 1, 2, 10 and 11 are valid")
	e := v - 1<<24
	enum := e == 1 || e == 2 || e == 8 || e == 13 || e == 16 || e == 17 || e == 18
	if v != 0 {
		rt.Assert(ValidateTransfer(v) == (enum || v > 0 && v <= 10000000), "transfer functions are the enumerated ones and gammas up to 1")
	}
	rt.Reach("valid")
}

func k01Space(i int) (CIEPrimaries, CIEXY, [3]k01XY, k01XY) {
	if i >= 9 {
		ps := [][3]k01XY{{{0.7, 0.28}, {0.2, 0.75}, {0.1, 0.02}}, {{0.64, 0.33}, {0.21, 0.71}, {0.15, 0.06}}, {{0.6, 0.35}, {0.3, 0.55}, {0.2, 0.1}}}
		ws := []k01XY{{0.35, 0.36}, {0.3127, 0.3290}, {0.28, 0.30}}
		p, w := ps[i-9], ws[i-9]
		c := NewCIEPrimaries(NewCIEXY(float32(p[0].x), float32(p[0].y)), NewCIEXY(float32(p[1].x), float32(p[1].y)), NewCIEXY(float32(p[2].x), float32(p[2].y)))
		return *c, *NewCIEXY(float32(w.x), float32(w.y)), p, w
	}
	pk, wk := []int32{1, 9, 11}[i%3], []int32{1, 10, 11}[i/3]
	return *GetPrimaries(pk), *GetWhitePoint(wk), k01Prims[pk], k01Whites[wk]
}

func k01Colour() (v [3]float32, f [3]float64) {
	for c := range v {
		v[c] = rt.Lin32(0, 1)
		f[c] = float64(v[c])
	}
	return
}

func k01Apply(m [][]float32, v [3]float32) (r [3]float32) {
	for i := range r {
		r[i] = m[i][0]*v[0] + m[i][1]*v[1] + m[i][2]*v[2]
	}
	return
}

// VH_K01_Convert: converting a linear colour between two spaces keeps its chromaticity relative to the white point.
func VH_K01_Convert() {
	p1, w1, rp1, rw1 := k01Space(rt.Concrete(rt.Int(0, 11)))
	p2, w2, rp2, rw2 := k01Space(rt.Concrete(rt.Int(0, 11)))
	m, err := GetConversionMatrix(p2, w2, p1, w1)
	rt.Assert(err == nil && len(m) == 3, "every pair of spaces has a conversion")
	if err != nil {
		return
	}
	want := k01Conv(rp2, rw2, rp1, rw1)
	v, f := k01Colour()
	got, ref := k01Apply(m, v), want.vec(f)
	for c := range got {
		rt.Close(float64(got[c]), ref[c], 2e-4, "the conversion goes through XYZ with the white point adapted")
	}
	// white stays white
	k := rt.Lin32(0, 1)
	for _, x := range k01Apply(m, [3]float32{k, k, k}) {
		rt.Close(float64(x), float64(k), 2e-4, "white stays white")
	}
	back, err := GetConversionMatrix(p1, w1, p2, w2)
	rt.Assert(err == nil && len(back) == 3, "every pair of spaces has a conversion")
	if err != nil {
		return
	}
	for c, x := range k01Apply(back, got) {
		rt.Close(float64(x), f[c], 4e-4, "there and back is the identity")
	}
	rt.Reach("convert")
}

// VH_K01_Opsin: the inverse absorbance matrix for other primaries converts after the default one.
func VH_K01_Opsin() {
	p, w, rp, rw := k01Space(rt.Concrete(rt.Int(0, 11)))
	o := NewOpsinInverseMatrix()
	n, err := o.GetMatrix(&p, &w)
	rt.Assert(err == nil && n != nil, "every space has an opsin matrix")
	if err != nil {
		return
	}
	def := k01Mat{
		{11.031566901960783, -9.866943921568629, -0.16462299647058826},
		{-3.254147380392157, 4.418770392156863, -0.16462299647058826},
		{-3.6588512862745097, 2.7129230470588235, 1.9459282392156863}}
	want := k01Conv(rp, rw, k01Prims[1], k01Whites[1]).mul(def)
	v, f := k01Colour()
	got, ref := k01Apply(n.Matrix, v), want.vec(f)
	for c := range got {
		rt.Close(float64(got[c]), ref[c], 0.002, "the opsin matrix leads to the target space")
		rt.Assert(n.OpsinBias[c] == o.OpsinBias[c] && n.QuantBias[c] == o.QuantBias[c], "biases stay")
		rt.Assert(math.Abs(float64(n.CbrtOpsinBias[c])+0.15595420054924863) < 1e-6, "the root of the bias stays")
	}
	rt.Reach("opsin")
}

// VH_K01_Reject: chromaticities no colour has are refused, others accepted.
func VH_K01_Reject() {
	// thousandths, so that few bits are unknown
	x, y := rt.Int(-3, 1003), rt.Int(-3, 1003)
	if rt.Concrete(rt.Int(0, 1)) == 0 {
		y = 329
	} else {
		x = 312
	}
	xy := NewCIEXY(float32(x)/1000, float32(y)/1000)
	v, err := GetXYZ(*xy)
	ok := x >= 0 && x <= 1000 && y > 0 && y <= 1000
	rt.Assert((err == nil) == ok, "exactly chromaticities in range have a colour")
	if ok && err == nil {
		rt.Assert(v[1] == 1, "the luminance is one")
	}
	rt.Reach("reject")
}

// k01Near compares two curve values.
func k01Near(got, want float64) bool { return got == want || math.Abs(got-want) <= 1e-7 }

// k01Curves are the transfer functions: to linear light (segment bound, slope of the segment) and the rest.
func k01To(tf int, x float64) float64 {
	switch tf {
	case 1:
		return math.Pow((x+0.0992968268094429403)*0.90967241568627260377, 2.2222222222222222222)
	case 13:
		return math.Pow((x+0.055)*0.9478672985781991, 2.4)
	}
	d := math.Pow(x, 0.012683313515655965121)
	return math.Pow(math.Max(d-0.8359375, 0)/(18.8515625-18.6875*d), 6.2773946360153256705)
}

func k01From(tf int, x float64) float64 {
	switch tf {
	case 1:
		return 1.0992968268094429403*math.Pow(x, 0.45) - 0.0992968268094429403
	case 13:
		return 1.055*math.Pow(x, 0.4166666666666667) - 0.055
	}
	d := math.Pow(x, 0.1593017578125)
	return math.Pow((0.8359375+18.8515625*d)/(1.0+18.6875*d), 78.84375)
}

// VH_K01_Segments: the linear parts of the curves, for every value in them.
func VH_K01_Segments() {
	kind := rt.Concrete(rt.Int(0, 2))
	tf := []int32{TF_LINEAR, TF_SRGB, TF_BT709}[kind]
	f, err := GetTransferFunction(tf)
	rt.Assert(err == nil && f != nil, "the curve exists")
	if err != nil {
		return
	}
	hi := []float64{1, 0.0404, 0.0812}[kind]
	slope := []float64{1, 12.92, 4.5}[kind]
	x := rt.Lin64(0, hi)
	rt.Close(f.ToLinear(x), x/slope, 1e-9, "the curve starts with its linear part")
	y := rt.Lin64(0, hi/slope)
	rt.Close(f.FromLinear(y), y*slope, 1e-9, "the inverse curve starts with its linear part")
	rt.Reach("segments")
}

// bound: transfer curves: every value of their linear parts; the power parts at 33 (thorough 513) values each, with math.Pow as a function
// outside: the accuracy of math.Pow, HLG (reported as not implemented), white points and primaries other than those listed
// VH_K01_Curves: the curves are those of the format; the inverse undoes them and they rise.
func VH_K01_Curves() {
	tf := []int{1, 13, 16, 17, 8, 0}[rt.Concrete(rt.Int(0, 5))]
	g := 0.0
	v := int32(tf + 1<<24)
	switch tf {
	case 17:
		g = 2.6
	case 0:
		v = []int32{10000000, 4545454, 1220, 123456}[rt.Concrete(rt.Int(0, 3))]
		g = 1e7 / float64(v)
	}
	f, err := GetTransferFunction(v)
	rt.Assert(err == nil && f != nil, "the curve exists")
	if err != nil {
		return
	}
	n := 32
	if rt.Thorough() {
		n = 512
	}
	prev, prevF := -1.0, -1.0
	for i := 0; i <= n; i++ {
		x := float64(i) / float64(n)
		to, from := f.ToLinear(x), f.FromLinear(x)
		wt, wf := x, x
		switch {
		case g != 0:
			wt, wf = math.Pow(x, g), math.Pow(x, 1/g)
		case tf == 1 && x < 0.08124285:
			wt = x / 4.5
		case tf == 13 && x < 0.0404482:
			wt = x / 12.92
		case tf != 8:
			wt = k01To(tf, x)
		}
		switch {
		case g != 0 || tf == 8:
		case tf == 1 && x < 0.01805396:
			wf = 4.5 * x
		case tf == 13 && x < 0.00313066:
			wf = 12.92 * x
		default:
			wf = k01From(tf, x)
		}
		rt.Assert(k01Near(to, wt), "the curve leads to linear light")
		rt.Assert(k01Near(from, wf), "the inverse curve leads back")
		if g < 100 {
			rt.Assert(math.Abs(f.FromLinear(to)-x) < 1e-6, "the inverse undoes the curve")
		}
		rt.Assert(to >= prev && from >= prevF, "the curves rise")
		prev, prevF = to, from
	}
	rt.Reach("curves")
}

// VH_K01_Which: which transfer values have a curve at all.
func VH_K01_Which() {
	v := rt.I32()
	rt.Assume(v > 0)
	f, err := GetTransferFunction(v)
	e := v - 1<<24
	has := v < 1<<24 || e == 1 || e == 8 || e == 13 || e == 16 || e == 17
	if e != 18 {
		rt.Assert((err == nil) == has, "exactly the transfer functions of the format exist")
		rt.Assert((f != nil) == has, "an error goes without a curve")
	}
	rt.Reach("which")
}

// VH_K01_Match: spaces match exactly when all their chromaticities nearly agree.
func VH_K01_Match() {
	base := *NewCIEPrimaries(NewCIEXY(0.6875, 0.3125), NewCIEXY(0.25, 0.6875), NewCIEXY(0.125, 0.0625))
	k := rt.Concrete(rt.Int(0, 5))
	off := rt.Lin32(0.001, 0.25)
	if rt.Concrete(rt.Int(0, 1)) == 1 {
		off = rt.Lin32(-0.25, -0.001)
	}
	o := *NewCIEPrimaries(NewCIEXY(0.6875, 0.3125), NewCIEXY(0.25, 0.6875), NewCIEXY(0.125, 0.0625))
	rt.Assert(base.Matches(&o) && o.Matches(&base), "equal spaces match")
	p := []*CIEXY{o.Red, o.Green, o.Blue}[k/2]
	if k%2 == 0 {
		p.X += off
	} else {
		p.Y += off
	}
	rt.Assert(!base.Matches(&o) && !o.Matches(&base), "different spaces do not match")
	rt.Assert(!base.Matches(nil), "no space does not match")
	rt.Reach("match")
}
