package colour

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: colour encodings (RGB, grey, unknown; enumerated and custom white point and primaries; enumerated and gamma transfer functions), tone mapping and opsin inverse matrix: every bit pattern, half floats with exponent 15 or 31 and positive sign (other half floats: N01), also truncated inputs
// outside: XYB colour space (its transfer function is read by this decoder, reference decoders do not), gamma 0 and gamma values above 10^7

func h02F16(r *rt.RefReader, nan bool) float32 {
	p := r.P
	r.U(16)
	if r.Bad {
		return 0
	}
	e := rt.RefBits(r.D, p+10, 5)
	rt.Assume(e == 15 || nan && e == 31)
	rt.Merge(true)
	defer rt.Merge(false)
	br := jxlio.NewBitStreamReader(bytes.NewReader(r.D))
	if p > 0 {
		br.SkipBits(uint32(p))
	}
	v, err := br.ReadF16()
	if err != nil {
		r.Bad = true
		return 0
	}
	return v
}

type h02XY struct{ x, y float32 }

func h02Custom(r *rt.RefReader, sel int) (v h02XY) {
	c := func() float32 {
		// thorough: any of the four distributions for every coordinate
		if sel >= 0 && !rt.Thorough() && r.Left() >= 2 {
			rt.Assume(rt.RefBits(r.D, r.P, 2) == uint64(sel&3))
			sel++
		}
		u := r.U32(0, 19, 524288, 19, 1048576, 20, 2097152, 21)
		s := int32(u >> 1)
		if u&1 == 1 {
			s = -1 - s
		}
		return float32(s) * 1e-6
	}
	v.x = c()
	v.y = c()
	return
}

func (v h02XY) check(c *CIEXY, what string) {
	rt.Assert(c != nil && rt.Same(c.X, v.x) && rt.Same(c.Y, v.y), what)
}

func h02Colour(n int, prim bool) {
	data := rt.Bytes(n)
	r := &rt.RefReader{D: data}
	allDef := r.Bool()
	icc := false
	cs, wp, pr, tf, ri := uint32(0), uint32(1), uint32(1), uint32(1<<24+13), uint32(1)
	white := h02XY{0.3127, 0.3290}
	p3 := [3]h02XY{{0.639998686, 0.330010138}, {0.300003784, 0.600003357}, {0.150002046, 0.059997204}}
	bad := false
	parse := func() {
		if allDef {
			return
		}
		icc = r.Bool()
		var ok bool
		if cs, ok = r.Enum(); r.Bad {
			return
		}
		if !ok || cs > 3 {
			bad = true
			return
		}
		rt.Assume(cs != 2)
		if icc {
			return
		}
		cs = uint32(rt.Concrete(int(cs)))
		if wp, ok = r.Enum(); r.Bad {
			return
		}
		if !(wp == 1 || wp == 2 || wp == 10 || wp == 11) {
			bad = true
			return
		}
		wp = uint32(rt.Concrete(int(wp)))
		rt.Assume(!prim || wp != 2)
		switch wp {
		case 2:
			white = h02Custom(r, -1)
		case 10:
			white = h02XY{1.0 / 3.0, 1.0 / 3.0}
		case 11:
			white = h02XY{0.314, 0.351}
		}
		if cs != 1 {
			if pr, ok = r.Enum(); r.Bad {
				return
			}
			if !(pr == 1 || pr == 2 || pr == 9 || pr == 11) {
				bad = true
				return
			}
			pr = uint32(rt.Concrete(int(pr)))
			rt.Assume(prim || pr != 2)
			switch pr {
			case 2:
				for i := range p3 {
					p3[i] = h02Custom(r, 3*i+1)
				}
			case 9:
				p3 = [3]h02XY{{0.708, 0.292}, {0.170, 0.797}, {0.131, 0.046}}
			case 11:
				p3 = [3]h02XY{{0.680, 0.320}, {0.265, 0.690}, {0.150, 0.060}}
			}
		}
		if (wp == 2 || pr == 2) && r.Left() >= 9 {
			// the simplest transfer function and intent after custom coordinates
			rt.Assume(rt.RefBits(r.D, r.P, 3) == 2 && rt.RefBits(r.D, r.P+3, 2) == 0)
		}
		if r.Bool() {
			tf = uint32(r.U(24))
			rt.Assume(r.Bad || tf >= 1 && tf <= 10000000)
		} else {
			var e uint32
			e, ok = r.Enum()
			if r.Bad {
				return
			}
			if !(e == 1 || e == 2 || e == 8 || e == 13 || e == 16 || e == 17 || e == 18) {
				bad = true
				return
			}
			tf = 1<<24 + e
		}
		ri, ok = r.Enum()
		if !ok || ri > 3 {
			bad = true
		}
	}
	parse()
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	c, err := NewColourEncodingBundleWithReader(br)
	rt.Merge(false)
	if r.Bad || bad {
		rt.Assert(err != nil, "a truncated or invalid colour encoding is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid colour encoding is accepted")
	rt.Assert(c.UseIccProfile == icc, "the ICC flag is the one in the stream")
	rt.Assert(c.ColourEncoding == int32(cs) && c.WhitePoint == int32(wp) && c.Primaries == int32(pr), "colour space, white point and primaries are those in the stream")
	rt.Assert(c.Tf == int32(tf), "transfer function is the one in the stream")
	rt.Assert(c.RenderingIntent == int32(ri), "rendering intent is the one in the stream")
	white.check(c.White, "white point coordinates")
	rt.Assert(c.Prim != nil, "primaries are set")
	p3[0].check(c.Prim.Red, "red primary coordinates")
	p3[1].check(c.Prim.Green, "green primary coordinates")
	p3[2].check(c.Prim.Blue, "blue primary coordinates")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the colour encoding's bits are consumed")
	rt.Reach("ok")
}

func VH_H02_Colour()      { h02Colour(15, false) }
func VH_H02_ColourShort() { h02Colour(1+rt.Concrete(rt.Int(0, 3)), false) }
func VH_H02_Primaries()   { h02Colour(28, true) }

func VH_H02_ToneMapping() {
	data := rt.Bytes(1 + 3*rt.Concrete(rt.Int(0, 2)))
	r := &rt.RefReader{D: data}
	it, mn, lb := float32(255), float32(0), float32(0)
	rel := false
	if !r.Bool() {
		it = h02F16(r, true)
		mn = h02F16(r, true)
		rel = r.Bool()
		lb = h02F16(r, true)
	}
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	t, err := NewToneMappingWithReader(br)
	if r.Bad {
		rt.Assert(err != nil, "truncated tone mapping or a NaN is an error")
		rt.Reach("rejected")
		return
	}
	if !(it > 0) || !(mn >= 0) || mn > it || lb < 0 || rel && lb > 1 {
		rt.Assert(err != nil, "out-of-range tone mapping values are rejected")
		rt.Reach("range")
		return
	}
	rt.Assert(err == nil, "valid tone mapping is accepted")
	rt.Assert(rt.Same(t.IntensityTarget, it) && rt.Same(t.MinNits, mn) && rt.Same(t.LinearBelow, lb) && t.RelativeToMaxDisplay == rel, "tone mapping fields are those in the stream")
	rt.Assert(rt.Same(t.GetIntensityTarget(), it), "GetIntensityTarget is the intensity target")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the tone mapping's bits are consumed")
	rt.Reach("ok")
}

func VH_H02_Opsin() {
	n := 34
	if rt.Bool() {
		n = 11
	}
	data := rt.Bytes(n)
	r := &rt.RefReader{D: data}
	f := [16]float32{11.031566901960783, -9.866943921568629, -0.16462299647058826,
		-3.254147380392157, 4.418770392156863, -0.16462299647058826,
		-3.6588512862745097, 2.7129230470588235, 1.9459282392156863,
		-0.0037930732552754493, -0.0037930732552754493, -0.0037930732552754493,
		1.0 - 0.05465007330715401, 1.0 - 0.07005449891748593, 1.0 - 0.049935103337343655, 0.145}
	if !r.Bool() {
		for i := range f {
			if r.Bad {
				break
			}
			f[i] = h02F16(r, i == 3 || i == 15)
		}
	}
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	m, err := NewOpsinInverseMatrixWithReader(br)
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "a truncated opsin matrix or a NaN is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid opsin matrix is accepted")
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			rt.Assert(rt.Same(m.Matrix[i][j], f[3*i+j]), "opsin inverse matrix is the one in the stream")
		}
		rt.Assert(rt.Same(m.OpsinBias[i], f[9+i]), "opsin bias is the one in the stream")
		rt.Assert(rt.Same(m.QuantBias[i], f[12+i]), "quantisation bias is the one in the stream")
	}
	rt.Assert(rt.Same(m.QuantBiasNumerator, f[15]), "quantisation bias numerator is the one in the stream")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the opsin matrix' bits are consumed")
	rt.Reach("ok")
}
