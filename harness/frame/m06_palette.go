package frame

import "github.com/kpfaulkner/jxl-go/zzverif/rt"

// bound: palettes of 1, 3 and 4 channels with 0..3 colours, 0..2 of them deltas, first channel 0..1, channels 1x1 to 2x2, all palette entries below 2^8 (thorough 2^16; weighted predictor: fixed ones), all indices from -2^12 to 2^12 (thorough: 2^20; with deltas the last one or two of them from -5 to 5, thorough -70 to 70), 1, 2, 4, 8, 12, 16 and 24 bits per sample, all predictors (6 with default parameters)
// outside: the colours of implicit entries in a fourth channel; bit depths above 24; pictures where deltas are not the first palette entries

var m06Delta = [72][3]int32{
	{0, 0, 0}, {4, 4, 4}, {11, 0, 0}, {0, 0, -13}, {0, -12, 0}, {-10, -10, -10},
	{-18, -18, -18}, {-27, -27, -27}, {-18, -18, 0}, {0, 0, -32}, {-32, 0, 0}, {-37, -37, -37},
	{0, -32, -32}, {24, 24, 45}, {50, 50, 50}, {-45, -24, -24}, {-24, -45, -45}, {0, -24, -24},
	{-34, -34, 0}, {-24, 0, -24}, {-45, -45, -24}, {64, 64, 64}, {-32, 0, -32}, {0, -32, 0},
	{-32, 0, 32}, {-24, -45, -24}, {45, 24, 45}, {24, -24, -45}, {-45, -24, 24}, {80, 80, 80},
	{64, 0, 0}, {0, 0, -64}, {0, -64, -64}, {-24, -24, 45}, {96, 96, 96}, {64, 64, 0},
	{45, -24, -24}, {34, -34, 0}, {112, 112, 112}, {24, -45, -45}, {45, 45, -24}, {0, -32, 32},
	{24, -24, 45}, {0, 96, 96}, {45, -24, 24}, {24, -45, -24}, {-24, -45, 24}, {0, -64, 0},
	{96, 0, 0}, {128, 128, 128}, {64, 0, 64}, {144, 144, 144}, {96, 96, 0}, {-36, -36, 36},
	{45, -24, -45}, {45, -45, -24}, {0, 0, -96}, {0, 128, 128}, {0, 96, 0}, {45, 24, -45},
	{-128, 0, 0}, {24, -45, 24}, {-45, 24, -45}, {64, 0, -64}, {64, -64, -64}, {96, 0, 96},
	{45, -45, 24}, {24, 45, -45}, {64, 64, -64}, {128, 128, 0}, {0, 0, -128}, {-24, 45, -45},
}

// m06Value is the colour of an index.
func m06Value(pal []int32, index int32, c, depth int) int32 {
	n := int32(len(pal))
	max := int32(1)<<uint(depth) - 1
	switch {
	case index >= 0 && index < n:
		v := int32(0)
		for i := range pal {
			if index == int32(i) {
				v = pal[i]
			}
		}
		return v
	case index >= n && index < n+64:
		// a 4x4x4 cube
		i := (index - n) >> uint(2*c)
		off := int32(1)
		if depth > 3 {
			off = 1 << uint(depth-3)
		}
		return (i%4)*max/4 + off
	case index >= n+64:
		// a 5x5x5 cube
		i := index - n - 64
		for k := 0; k < c; k++ {
			i /= 5
		}
		return (i % 5) * max / 4
	}
	if c >= 3 {
		return 0
	}
	i := (-(index + 1)) % 143
	v := m06Delta[(i+1)>>1][c]
	if i&1 == 0 {
		v = -v
	}
	if depth > 8 {
		v *= int32(1) << uint(depth-8)
	}
	return v
}

func m06Run(numC, nb, deltas, pred, begin, w, h, depth, vars int, lim int32) {
	ms := &ModularStream{frame: symFrame(int32(depth)), nbMetaChannels: 1}
	p := m03Set(0)
	ms.wpParams = &p
	ms.transforms = []TransformInfo{{tr: PALETTE, beginC: begin, numC: numC, nbColours: nb, nbDeltas: deltas, dPred: pred}}
	rt.Merge(true)
	var pal []int32
	if pred == 6 {
		pal = []int32{700, -31, 5, 160, 2, -404, 13, 0, 90}[:numC*nb]
	} else {
		pal = mSyms(numC*nb, m06Lim(1<<8, 1<<16))
	}
	var idx []int32
	for i := 0; i < w*h; i++ {
		v := int32(0)
		if i >= w*h-vars {
			v = rt.I32()
			rt.Assume(v > -lim && v < lim)
		} else if nb > 0 {
			v = int32(i % nb)
		} else {
			v = int32(-3 - 5*i)
		}
		if numC > 3 {
			rt.Assume(v < int32(nb))
		}
		idx = append(idx, v)
	}
	before := mSyms(begin, 1<<16)
	after := mSyms(1, 1<<16)
	want := make([][]int32, numC)
	for c := range want {
		r := m03New(w, h, p)
		for i := range idx {
			v := m06Value(pal[c*nb:c*nb+nb], idx[i], c, depth)
			x, y := i%w, i/w
			if deltas > 0 && pred == 6 {
				p, _ := r.step(x, y)
				if idx[i] < int32(deltas) {
					v += (p + 3) >> 3
				}
				r.update(x, y, v)
			} else if idx[i] < int32(deltas) {
				v += mPredict(pred, mHoodAt(r.v, w, x, y))
			}
			r.v[i] = v
		}
		want[c] = r.v
	}
	rt.Merge(false)
	ms.channels = append(ms.channels, mFilled(nb, numC, pal))
	for i := range before {
		ms.channels = append(ms.channels, mFilled(1, 1, before[i:i+1]))
	}
	ms.channels = append(ms.channels, mFilled(w, h, idx), mFilled(1, 1, after))
	rt.Merge(true)
	err := ms.applyTransforms()
	rt.Merge(false)
	rt.Assert(err == nil, "undoing the palette succeeds")
	rt.Assert(len(ms.channels) == begin+numC+1, "the palette becomes the channels it was made of")
	b := ms.getDecodedBuffer()
	for i := range before {
		rt.Assert(b[i][0][0] == before[i], "channels before the palette do not change")
	}
	rt.Assert(b[begin+numC][0][0] == after[0], "channels after the palette do not change")
	for c := range want {
		for i := range want[c] {
			rt.Assert(b[begin+c][i/w][i%w] == want[c][i], "an index becomes its colour")
		}
	}
	rt.Reach("expanded")
}

func m06Lim(quick, thorough int32) int32 {
	if rt.Thorough() {
		return thorough
	}
	return quick
}

var m06Depths = []int{1, 2, 4, 8, 12, 16, 24}

// VH_M06_Colours: the colours of all indices.
func VH_M06_Colours() {
	numC := rt.Concrete(rt.Int(1, 4))
	rt.Assume(numC != 2)
	nb := rt.Concrete(rt.Int(0, 3))
	depth := m06Depths[rt.Concrete(rt.Int(0, len(m06Depths)-1))]
	begin := rt.Concrete(rt.Int(0, 1))
	rt.Assume(begin == nb&1 && (numC == 3 || depth == 8 || depth == 2) || rt.Thorough())
	m06Run(numC, nb, 0, 0, begin, 1, 1, depth, 1, m06Lim(1<<12, 1<<20))
}

// VH_M06_Deltas: entries that are added to a prediction.
func VH_M06_Deltas() {
	pred := rt.Concrete(rt.Int(0, 13))
	rt.Assume(pred != 6)
	deltas := rt.Concrete(rt.Int(0, 2))
	size := rt.Concrete(rt.Int(0, 2))
	w, h := 2, 2
	if size == 1 {
		w, h = 3, 1
	} else if size == 2 {
		w, h = 1, 3
	}
	m06Run(1, 2, deltas, pred, 0, w, h, 8, int(m06Lim(1, 2)), m06Lim(4, 70))
}

// VH_M06_Weighted: deltas on top of the weighted predictor.
func VH_M06_Weighted() {
	numC := 1 + 2*rt.Concrete(rt.Int(0, 1))
	deltas := rt.Concrete(rt.Int(1, 2))
	w := rt.Concrete(rt.Int(1, 3))
	h := rt.Concrete(rt.Int(1, 2))
	vars := 2
	if w*h > 3 || numC > 1 {
		vars = int(m06Lim(1, 2))
	}
	m06Run(numC, 2, deltas, 6, 0, w, h, 8, vars, m06Lim(4, 80))
}
