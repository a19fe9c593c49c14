package bundle

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: bit depth, extra channel (names up to 2 bytes, thorough 4), extension (keys 0..3 with payloads of 0, 1, 8 or 9 bits each, thorough 0..7 and up to 12 bits) and whole image headers with up to 2 extra channels, every bit pattern, also truncated inputs
// bound: half floats in the header are compared with ReadF16 at the format's position (N01 verifies ReadF16 itself)
// outside: animation headers (unsupported by the decoder: reported as an error), embedded ICC streams (I01), rejection of non-zero padding bits, range checks of bit depth, gamma and dimension shift values

type h02BD struct {
	bits, exp uint32
	float     bool
}

func h02RefBD(r *rt.RefReader) h02BD {
	if r.Bool() {
		b := r.U32(32, 0, 16, 0, 24, 0, 1, 6)
		return h02BD{b, 1 + uint32(r.U(4)), true}
	}
	return h02BD{r.U32(8, 0, 10, 0, 12, 0, 1, 6), 0, false}
}

func (b h02BD) check(h *BitDepthHeader, what string) {
	rt.Assert(h.UsesFloatSamples == b.float && h.BitsPerSample == b.bits && h.ExpBits == b.exp, what)
}

// h02F16 reads the half float at the reference position with the decoder's own reader.
func h02F16(r *rt.RefReader, nan bool) float32 {
	p := r.P
	r.U(16)
	if r.Bad {
		return 0
	}
	e := rt.RefBits(r.D, p+10, 5)
	rt.Assume(e == 15 || nan && e == 31)
	rt.Assume(rt.RefBits(r.D, p+15, 1) == 0)
	rt.Merge(true)
	defer rt.Merge(false)
	br := jxlio.NewBitStreamReader(bytes.NewReader(r.D))
	if p > 0 {
		br.SkipBits(uint32(p))
	}
	v, err := br.ReadF16()
	if err != nil {
		r.Bad = true
		return 0
	}
	return v
}

func VH_H02_BitDepth() {
	data := rt.Bytes(1 + rt.Concrete(rt.Int(0, 1)))
	r := &rt.RefReader{D: data}
	ref := h02RefBD(r)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewBitDepthHeaderWithReader(br)
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "a truncated bit depth header is an error")
		rt.Reach("truncated")
		return
	}
	rt.Assert(err == nil, "a complete bit depth header is accepted")
	ref.check(h, "bit depth fields are those the format defines")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the bit depth's bits are consumed")
	rt.Reach("ok")
}

type h02EC struct {
	typ, cfa, shift uint32
	bd              h02BD
	name            []byte
	assoc           bool
	spot            [4]float32
	invalid         bool
	long            bool
}

func h02RefEC(r *rt.RefReader, maxName int, short bool) (e h02EC) {
	e.cfa = 1
	e.bd.bits = 8
	if r.Bool() {
		return
	}
	t, ok := r.Enum()
	if r.Bad {
		return
	}
	if !ok || !(t <= 6 || t == 15 || t == 16) {
		e.invalid = true
		return
	}
	t = uint32(rt.Concrete(int(t)))
	e.typ = t
	// short: 8 bits, no dimension shift, no name, and only three types
	rt.Assume(!short || t == 0 || t == 3 || t == 16)
	rt.Assume(!short || r.Left() < 7 || rt.RefBits(r.D, r.P, 7) == 0)
	e.bd = h02RefBD(r)
	e.shift = r.U32(0, 0, 3, 0, 4, 0, 1, 3)
	n := r.U32(0, 0, 0, 4, 16, 5, 48, 10)
	if n > uint32(maxName) {
		e.long = true
		return
	}
	nn := rt.Concrete(int(n))
	for i := 0; i < nn; i++ {
		e.name = append(e.name, byte(r.U(8)))
	}
	if t == 0 {
		e.assoc = r.Bool()
	}
	if t == 2 {
		for i := range e.spot {
			e.spot[i] = h02F16(r, true)
		}
	}
	if t == 5 {
		e.cfa = r.U32(1, 0, 0, 2, 3, 4, 19, 8)
	}
	return
}

func (e *h02EC) check(h *ExtraChannelInfo) {
	rt.Assert(h.EcType == int32(e.typ), "extra channel type is the one the format defines")
	e.bd.check(&h.BitDepth, "extra channel bit depth is the one the format defines")
	rt.Assert(h.DimShift == int32(e.shift), "extra channel dimension shift is the one the format defines")
	rt.Assert(h.Name == string(e.name), "extra channel name is the one in the stream")
	rt.Assert(h.AlphaAssociated == e.assoc, "premultiplied alpha flag is the one in the stream")
	rt.Assert(rt.Same(h.Red, e.spot[0]) && rt.Same(h.Green, e.spot[1]) && rt.Same(h.Blue, e.spot[2]) && rt.Same(h.Solidity, e.spot[3]), "spot colour is the one in the stream")
	rt.Assert(h.CfaIndex == int32(e.cfa), "CFA index is the one the format defines")
}

func h02Extra(n, maxName int) {
	data := rt.Bytes(n)
	r := &rt.RefReader{D: data}
	ref := h02RefEC(r, maxName, false)
	rt.Assume(!ref.long)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewExtraChannelInfoWithReader(br)
	rt.Merge(false)
	if r.Bad || ref.invalid {
		rt.Assert(err != nil, "a truncated or invalid extra channel is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid extra channel is accepted")
	ref.check(h)
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the extra channel's bits are consumed")
	rt.Reach("ok")
}

func VH_H02_Extra() {
	if rt.Thorough() {
		h02Extra(18, 4)
	} else {
		h02Extra(16, 2)
	}
}
func VH_H02_ExtraShort() { h02Extra(1+rt.Concrete(rt.Int(0, 3)), 2) }

func h02RefExt(r *rt.RefReader, maxKey uint64, maxLen uint64) (key uint64, pay [3][]byte, skip bool) {
	key = r.U64()
	if r.Bad {
		return
	}
	if key > maxKey {
		return key, pay, true
	}
	var ln [3]int
	for i := 0; i < 3; i++ {
		if key>>uint(i)&1 == 1 {
			l := r.U64()
			if l > maxLen {
				return key, pay, true
			}
			rt.Assume(rt.Thorough() || l <= 1 || l == 8 || l == 9)
			ln[i] = rt.Concrete(int(l))
		}
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < ln[i]; j += 8 {
			pay[i] = append(pay[i], byte(r.U(min(8, ln[i]-j))))
		}
	}
	return
}

func h02CheckExt(h *Extensions, key uint64, pay [3][]byte) {
	rt.Assert(h.ExtensionsKey == key, "extension key is the one in the stream")
	for i := 0; i < 64; i++ {
		var want []byte
		if i < 3 {
			want = pay[i]
		}
		rt.Assert(len(h.Payloads[i]) == len(want), "extension payload has the coded length")
		for j := range want {
			rt.Assert(h.Payloads[i][j] == want[j], "extension payload is the one in the stream")
		}
	}
}

func h02Ext(n int) {
	data := rt.Bytes(n)
	r := &rt.RefReader{D: data}
	mk, ml := uint64(3), uint64(10)
	if rt.Thorough() {
		mk, ml = 7, 12
	}
	key, pay, skip := h02RefExt(r, mk, ml)
	rt.Assume(!skip)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewExtensionsWithReader(br)
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "truncated extensions are an error")
		rt.Reach("truncated")
		return
	}
	rt.Assert(err == nil, "complete extensions are accepted")
	h02CheckExt(h, key, pay)
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the extensions' bits are consumed")
	rt.Reach("ok")
}

func VH_H02_Ext()      { h02Ext(14) }
func VH_H02_ExtShort() { h02Ext(1 + rt.Concrete(rt.Int(0, 2))) }

// A whole image header. The parts verified on their own above (and in package colour)
// are restricted to their short forms here.
const (
	h02Plain = iota
	h02Sizes // orientation, intrinsic size, preview, animation
	h02Depth // bit depth and flags
	h02EC1   // extra channels
	h02Tail  // extensions
	h02Weights
)

func h02Header(n int, v int) {
	data := rt.Bytes(n)
	r := &rt.RefReader{D: data}
	level := int32(5)
	if rt.Bool() {
		level = 10
	}
	magic := uint32(r.U(16)) == 0x0AFF
	rt.Assume(len(data) < 4 || rt.RefBits(data, 16, 1) == 1 && rt.RefBits(data, 22, 3) == 1)
	w, h := h01Size(r)
	allDef := r.Bool()
	extra := !allDef && r.Bool()
	rt.Assume(v == h02Plain || !allDef)
	rt.Assume(r.Bad || v != h02Sizes || extra)
	rt.Assume(r.Bad || v == h02Sizes || v == h02Plain || !extra)
	orient := uint64(1)
	var iw, ih, pw, ph uint64
	hasPrev, anim := false, false
	if extra {
		orient = 1 + r.U(3)
		if r.Bool() {
			p := r.P
			rt.Assume(r.Left() < 9 || rt.RefBits(r.D, r.P, 1) == 1 && rt.RefBits(r.D, r.P+6, 3) == 4)
			iw, ih = h01Size(r)
			rt.Assume(iw <= 1<<18 && ih <= 1<<18 && r.P <= p+12)
		}
		if r.Bool() {
			hasPrev = true
			p := r.P
			rt.Assume(r.Left() < 9 || rt.RefBits(r.D, r.P, 3) == 5 && rt.RefBits(r.D, r.P+8, 3) == 7)
			pw, ph = h01Preview(r)
			rt.Assume(pw <= 4096 && ph <= 4096 && r.P <= p+12)
		}
		anim = r.Bool()
	}
	if anim {
		br := jxlio.NewBitStreamReader(bytes.NewReader(data))
		rt.Merge(true)
		_, err := ParseImageHeader(br, level)
		rt.Merge(false)
		rt.Assert(err != nil, "an animation header is rejected as unsupported")
		rt.Reach("animation")
		return
	}
	bd := h02BD{8, 0, false}
	m16 := true
	var ecs []h02EC
	invalid := false
	xyb := true
	colDef := true
	if !allDef {
		bd = h02RefBD(r)
		m16 = r.Bool()
		rt.Assume(v == h02Depth || !bd.float && bd.bits == 8)
		nec := r.U32(0, 0, 1, 0, 2, 4, 1, 12)
		rt.Assume(nec <= 2 && (v == h02EC1 || nec == 0))
		k := rt.Concrete(int(nec))
		for i := 0; i < k; i++ {
			e := h02RefEC(r, 0, true)
			if e.invalid {
				invalid = true
				break
			}
			ecs = append(ecs, e)
		}
		if !invalid {
			xyb = r.Bool()
			colDef = r.Bool()
		}
	}
	if r.Bad || invalid {
		br := jxlio.NewBitStreamReader(bytes.NewReader(data))
		rt.Merge(true)
		_, err := ParseImageHeader(br, level)
		rt.Merge(false)
		rt.Assert(err != nil, "a truncated header or an invalid extra channel is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assume(colDef)
	tmDef := true
	if extra {
		tmDef = r.Bool()
	}
	rt.Assume(tmDef)
	var key uint64
	var pay [3][]byte
	skip := false
	if !allDef {
		maxKey := uint64(0)
		if v == h02Tail {
			maxKey = 1
		}
		key, pay, skip = h02RefExt(r, maxKey, 9)
		rt.Assume(!skip)
	}
	defM := r.Bool()
	opsinDef := true
	cw := uint64(0)
	if !defM {
		if xyb {
			opsinDef = r.Bool()
		}
		cw = r.U(3)
	}
	rt.Assume(opsinDef)
	var up [3][]float32
	if v == h02Weights {
		rt.Assume(cw == 1 || cw == 2 || cw == 3 || cw == 4 && rt.Thorough())
	} else {
		rt.Assume(cw == 0)
	}
	for i, m := range []int{15, 55, 210} {
		if cw>>uint(i)&1 == 1 {
			for j := 0; j < m; j++ {
				up[i] = append(up[i], h02F16(r, false))
			}
		}
	}
	pad := (8 - r.P&7) & 7
	r.U(pad)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	hd, err := ParseImageHeader(br, level)
	rt.Merge(false)
	if r.Bad || !magic {
		rt.Assert(err != nil, "a truncated header or a wrong signature is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid image header is accepted")
	rt.Assert(hd.Level == level, "level is the container's")
	rt.Assert(uint64(hd.Size.Width) == w && uint64(hd.Size.Height) == h, "image size is the one in the stream")
	rt.Assert(hd.GetSize() == hd.Size, "GetSize is the image size")
	rt.Assert(uint64(hd.Orientation) == orient, "orientation is the one in the stream")
	ow, oh := w, h
	if orient > 4 {
		ow, oh = h, w
	}
	rt.Assert(uint64(hd.OrientedWidth) == ow && uint64(hd.OrientedHeight) == oh, "oriented size is the size with the orientation applied")
	rt.Assert(uint64(hd.intrinsicSize.Width) == iw && uint64(hd.intrinsicSize.Height) == ih, "intrinsic size is the one in the stream")
	rt.Assert((hd.PreviewSize != nil) == hasPrev, "a preview size is present exactly when signalled")
	if hasPrev {
		rt.Assert(uint64(hd.PreviewSize.Width) == pw && uint64(hd.PreviewSize.Height) == ph, "preview size is the one in the stream")
		rt.Reach("preview")
	}
	bd.check(hd.BitDepth, "image bit depth is the one in the stream")
	rt.Assert(hd.Modular16BitBuffers == m16, "the 16-bit buffer flag is the one in the stream")
	rt.Assert(len(hd.ExtraChannelInfo) == len(ecs), "number of extra channels is the one in the stream")
	var alpha []int32
	for i := range ecs {
		ecs[i].check(&hd.ExtraChannelInfo[i])
		if ecs[i].typ == 0 {
			alpha = append(alpha, int32(i))
		}
	}
	rt.Assert(len(hd.AlphaIndices) == len(alpha), "every alpha channel is listed")
	for i := range alpha {
		rt.Assert(hd.AlphaIndices[i] == alpha[i], "alpha channel indices are in order")
	}
	rt.Assert(hd.HasAlpha() == (len(alpha) > 0), "HasAlpha tells whether an alpha channel exists")
	rt.Assert(hd.GetColourChannelCount() == 3 && hd.GetTotalChannelCount() == 3+len(ecs), "channel counts")
	rt.Assert(hd.XybEncoded == xyb, "XYB flag is the one in the stream")
	ce := hd.ColourEncoding
	rt.Assert(!ce.UseIccProfile && ce.ColourEncoding == 0 && ce.WhitePoint == 1 && ce.Primaries == 1 && ce.Tf == colour.TF_SRGB && ce.RenderingIntent == 1, "the default colour encoding is sRGB with relative intent")
	rt.Assert(ce.White.X == 0.3127 && ce.White.Y == 0.3290, "the default white point is D65")
	tm := hd.ToneMapping
	rt.Assert(tm.IntensityTarget == 255 && tm.MinNits == 0 && !tm.RelativeToMaxDisplay && tm.LinearBelow == 0, "default tone mapping")
	h02CheckExt(hd.Extensions, key, pay)
	m := hd.OpsinInverseMatrix
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			rt.Assert(m.Matrix[i][j] == h02Opsin[i][j], "default opsin inverse matrix")
		}
		rt.Assert(m.OpsinBias[i] == -0.0037930732552754493, "default opsin bias")
	}
	rt.Assert(m.QuantBias[0] == 1.0-0.05465007330715401 && m.QuantBias[1] == 1.0-0.07005449891748593 && m.QuantBias[2] == 1.0-0.049935103337343655 && m.QuantBiasNumerator == 0.145, "default quantisation biases")
	for i, u := range [][]float32{hd.Up2Weights, hd.Up4Weights, hd.Up8Weights} {
		d := [][]float32{h02Up2[:], h02Up4[:], h02Up8[:]}[i]
		if up[i] != nil {
			d = up[i]
			rt.Reach("custom weights")
		}
		rt.Assert(len(u) == len(d), "number of upsampling weights")
		for j := range d {
			rt.Assert(rt.Same(u[j], d[j]), "upsampling weights are those in the stream, or the defaults")
		}
	}
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the header's bits are consumed")
	rt.Reach("header")
}

func VH_H02_Header() { h02Header(14, rt.Concrete(rt.Int(h02Plain, h02Tail))) }
func VH_H02_HeaderShort() {
	v := rt.Concrete(rt.Int(h02Plain, h02Depth))
	n := 5
	if v == h02Plain {
		n = 3 + rt.Concrete(rt.Int(0, 3))
	}
	h02Header(n, v)
}
func VH_H02_UpWeights() {
	n := 160
	if rt.Thorough() {
		n = 460
	}
	h02Header(n, h02Weights)
}

func VH_H02_Level() {
	data := []byte{0xff, 0x0a, 0x01, 0x01, 0, 0, 0}
	lv := rt.I32()
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	_, err := ParseImageHeader(br, lv)
	if lv != 5 && lv != 10 {
		rt.Assert(err != nil, "unknown levels are rejected")
		rt.Reach("rejected")
	}
}

// The format's default tables (ISO/IEC 18181-1).
var h02Opsin = [3][3]float32{
	{11.031566901960783, -9.866943921568629, -0.16462299647058826},
	{-3.254147380392157, 4.418770392156863, -0.16462299647058826},
	{-3.6588512862745097, 2.7129230470588235, 1.9459282392156863}}
