package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: frame headers up to 40 bytes with every field symbolic in at least one family: frame type, encoding, flags (U64 of up to 10 bits, thorough 22), YCbCr and subsampling, upsampling, group size, quantisation scales, LF level; crop with 30 bit origins and sizes; blending with 0..2 extra channels; tails with names up to 17 bytes and extension keys 0..2; passes headers of 1..4 passes (thorough 11) and blending and restoration filter bundles on their own; image sizes up to 2^30, XYB or not
// bound: half floats of the filter are compared with ReadF16 at the format's position (N01 verifies ReadF16 itself)
// outside: animated images (the decoder reports them as unsupported), blending modes 5 and 6, range checks between passes fields, headers cut short in the middle of a field other than at a byte boundary

type h03Blend struct {
	mode, alpha, source uint32
	clamp               bool
}

func h03RefBlend(r *rt.RefReader, extra, full bool) (b h03Blend) {
	b.mode = r.U32(0, 0, 1, 0, 2, 0, 3, 2)
	rt.Assume(b.mode <= 4)
	if extra && (b.mode == 2 || b.mode == 3) {
		b.alpha = r.U32(0, 0, 1, 0, 2, 0, 3, 3)
	}
	if b.mode == 4 || extra && b.mode >= 2 {
		b.clamp = r.Bool()
	}
	if b.mode != 0 || !full {
		b.source = uint32(r.U(2))
	}
	return
}

func (b h03Blend) check(h *BlendingInfo) {
	rt.Assert(h.Mode == b.mode && h.AlphaChannel == b.alpha && h.Clamp == b.clamp && h.Source == b.source, "blending fields are those the format defines")
}

type h03Passes struct {
	n, ds        uint32
	shift        []uint32
	down, last   []uint32
	unrestricted bool
}

func h03RefPasses(r *rt.RefReader, maxN int) (p h03Passes) {
	p.n = r.U32(1, 0, 2, 0, 3, 0, 4, 3)
	rt.Assume(p.n <= uint32(maxN))
	n := rt.Concrete(int(p.n))
	if n != 1 {
		p.ds = r.U32(0, 0, 1, 0, 2, 0, 3, 1)
	}
	ds := rt.Concrete(int(p.ds))
	for i := 0; i < n-1; i++ {
		p.shift = append(p.shift, uint32(r.U(2)))
	}
	p.shift = append(p.shift, 0)
	for i := 0; i < ds; i++ {
		p.down = append(p.down, 1<<r.U(2))
	}
	for i := 0; i < ds; i++ {
		p.last = append(p.last, r.U32(0, 0, 1, 0, 2, 0, 0, 3))
	}
	p.down = append(p.down, 1)
	p.last = append(p.last, p.n-1)
	return
}

func (p h03Passes) check(h *PassesInfo) {
	rt.Assert(h.numPasses == p.n && h.numDS == p.ds, "number of passes and of downsampled passes are those in the stream")
	if p.shift == nil {
		return
	}
	rt.Assert(len(h.shift) == len(p.shift), "one shift per pass")
	for i := range p.shift {
		rt.Assert(h.shift[i] == p.shift[i], "pass shifts are those in the stream")
	}
	rt.Assert(len(h.downSample) == len(p.down) && len(h.lastPass) == len(p.last), "one entry per downsampling plus the final one")
	for i := range p.down {
		rt.Assert(h.downSample[i] == p.down[i] && h.lastPass[i] == p.last[i], "downsampling factors and last passes are those in the stream")
	}
}

func h03F16(r *rt.RefReader) float32 {
	p := r.P
	r.U(16)
	if r.Bad {
		return 0
	}
	rt.Assume(rt.RefBits(r.D, p+10, 5) == 15)
	rt.Assume(rt.RefBits(r.D, p+15, 1) == 0)
	rt.Merge(true)
	defer rt.Merge(false)
	br := jxlio.NewBitStreamReader(bytes.NewReader(r.D))
	if p > 0 {
		br.SkipBits(uint32(p))
	}
	v, err := br.ReadF16()
	if err != nil {
		r.Bad = true
		return 0
	}
	return v
}

type h03Filter struct {
	gab, cgab              bool
	g1, g2                 [3]float32
	iters                  uint32
	sharp, sigma, weights  bool
	lut                    [8]float32
	scale                  [3]float32
	qm, p0, p2, border, md float32
	key                    uint64
}

func h03DefFilter() (f h03Filter) {
	f.gab, f.iters = true, 2
	for i := range f.g1 {
		f.g1[i], f.g2[i] = 0.115169525, 0.061248592
	}
	for i := range f.lut {
		f.lut[i] = float32(float64(i) / 7)
	}
	f.scale = [3]float32{40, 5, 3.5}
	f.qm, f.p0, f.p2, f.border, f.md = 0.46, 0.9, 6.5, 2.0/3.0, 1
	return
}

// h03RefFilter is the restoration filter bundle; with short it omits the channel weights flag.
func h03RefFilter(r *rt.RefReader, modular, short bool) (f h03Filter) {
	f = h03DefFilter()
	if r.Bool() {
		return
	}
	f.gab = r.Bool()
	if f.gab {
		f.cgab = r.Bool()
	}
	if f.cgab {
		for i := range f.g1 {
			f.g1[i] = h03F16(r)
			f.g2[i] = h03F16(r)
		}
	}
	f.iters = uint32(r.U(2))
	if f.iters > 0 {
		if !modular {
			f.sharp = r.Bool()
		}
		if f.sharp {
			for i := range f.lut {
				f.lut[i] = h03F16(r)
			}
		}
		if !short {
			f.weights = r.Bool()
		}
		if f.weights {
			for i := range f.scale {
				f.scale[i] = h03F16(r)
			}
			r.U(32)
		}
		f.sigma = r.Bool()
		if f.sigma {
			if !modular {
				f.qm = h03F16(r)
			}
			f.p0, f.p2, f.border = h03F16(r), h03F16(r), h03F16(r)
		}
		if modular {
			f.md = h03F16(r)
		}
	}
	f.key = r.U64()
	rt.Assume(f.key == 0)
	return
}

func (f *h03Filter) same(h *RestorationFilter) bool {
	ok := h.gab == f.gab && h.customGab == f.cgab && h.epfIterations == f.iters && h.epfSharpCustom == f.sharp && h.epfWeightCustom == f.weights && h.epfSigmaCustom == f.sigma
	for i := range f.g1 {
		ok = ok && rt.Same(h.gab1Weights[i], f.g1[i]) && rt.Same(h.gab2Weights[i], f.g2[i]) && rt.Same(h.epfChannelScale[i], f.scale[i])
	}
	for i := range f.lut {
		ok = ok && rt.Same(h.epfSharpLut[i], f.lut[i]*f.qm)
	}
	return ok && rt.Same(h.epfQuantMul, f.qm) && rt.Same(h.epfPass0SigmaScale, f.p0) && rt.Same(h.epfPass2SigmaScale, f.p2) &&
		rt.Same(h.epfBorderSadMul, f.border) && rt.Same(h.epfSigmaForModular, f.md)
}

// The filter bundle alone. The channel weights flag is a recorded defect: a stream whose
// filter is not the default and has iterations is accepted either way.
func h03FilterCheck(n int, f16s int, prep func(data []byte)) {
	data := rt.Bytes(n)
	prep(data)
	modular := rt.Bool()
	enc := uint32(VARDCT)
	if modular {
		enc = MODULAR
	}
	known := rt.Known("H03-epf-weights")
	r := &rt.RefReader{D: data}
	f := h03RefFilter(r, modular, known)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewRestorationFilterWithReader(br, enc)
	rt.Merge(false)
	if r.Bad {
		if err == nil && known {
			// repaired decoder
			q := &rt.RefReader{D: data}
			g := h03RefFilter(q, modular, false)
			rt.Assert(!q.Bad && g.same(h), "a truncated filter is an error")
		} else {
			rt.Assert(err != nil, "a truncated filter is an error")
		}
		rt.Reach("truncated")
		return
	}
	if known && f.iters > 0 && rt.RefBits(data, 0, 1) == 0 {
		if err == nil && br.BitsRead() == uint64(r.P) && f.same(h) {
			rt.KnownHit("H03-epf-weights")
			rt.Reach("known")
			return
		}
		q := &rt.RefReader{D: data}
		g := h03RefFilter(q, modular, false)
		if q.Bad {
			rt.Assert(err != nil, "a truncated filter is an error")
			return
		}
		rt.Assert(err == nil && br.BitsRead() == uint64(q.P) && g.same(h), "filter fields are those the format defines")
		return
	}
	rt.Assert(err == nil, "a complete filter is accepted")
	rt.Assert(f.same(h), "filter fields are those the format defines")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the filter's bits are consumed")
	rt.Reach("ok")
}

func VH_H03_FilterDefault() {
	h03FilterCheck(1, 0, func(d []byte) { rt.Assume(d[0]&1 == 1) })
	rt.Assert(func() bool { f := h03DefFilter(); return f.same(NewRestorationFilter()) }(), "the default filter has the format's default values")
}

func VH_H03_FilterGab() {
	h03FilterCheck(13, 0, func(d []byte) { rt.Assume(d[0]&3 == 2) })
}

func VH_H03_FilterSharp() {
	h03FilterCheck(19, 0, func(d []byte) { rt.Assume(d[0]&3 == 0) })
}

func VH_H03_FilterSigma() {
	h03FilterCheck(9, 0, func(d []byte) { rt.Assume(d[0]&19 == 0) })
}

func VH_H03_FilterShort() {
	h03FilterCheck(1, 0, func(d []byte) {})
}

func VH_H03_Blending() {
	data := rt.Bytes(1 + rt.Concrete(rt.Int(0, 1)))
	extra, full := rt.Bool(), rt.Bool()
	r := &rt.RefReader{D: data}
	b := h03RefBlend(r, extra, full)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewBlendingInfoWithReader(br, extra, full)
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "truncated blending info is an error")
		rt.Reach("truncated")
		return
	}
	rt.Assert(err == nil, "complete blending info is accepted")
	b.check(h)
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the blending bits are consumed")
	rt.Reach("ok")
}

func VH_H03_Passes() {
	maxN, n := 4, 4
	if rt.Thorough() {
		maxN, n = 11, 8
	}
	data := rt.Bytes(rt.Concrete(rt.Int(0, n)))
	r := &rt.RefReader{D: data}
	p := h03RefPasses(r, maxN)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewPassesInfoWithReader(br)
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "a truncated passes bundle is an error")
		rt.Reach("truncated")
		return
	}
	rt.Assert(err == nil, "a complete passes bundle is accepted")
	p.check(h)
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the passes bits are consumed")
	rt.Reach("ok")
}

type h03Opt struct {
	types, flags   int // 0: fixed, 1: free
	jpeg, up       bool
	passes         bool
	crop           bool
	blend          bool
	tail           bool
	xyb            int // 0 no, 1 yes, 2 free
	ec             int
	allDef         int // 0 no, 1 yes
	size           int
	maxName, extra int
}

// zero forces the next n bits of the reference to v before they are parsed.
func h03Force(on bool, r *rt.RefReader, n int, v uint64) {
	if on && !r.Bad && r.Left() >= n {
		rt.Assume(rt.RefBits(r.D, r.P, n) == v)
	}
}

func ceilDiv(a uint64, b uint64) uint64 { return (a + b - 1) / b }

func h03Frame(o h03Opt) {
	data := rt.Bytes(o.size)
	w, hh := uint32(rt.Int(1, 1<<30)), uint32(rt.Int(1, 1<<30))
	parent := &bundle.ImageHeader{Size: util.Dimension{Width: w, Height: hh}}
	xyb := o.xyb == 1
	if o.xyb == 2 {
		xyb = rt.Bool()
		if xyb {
			xyb = true
		}
	}
	parent.XybEncoded = xyb
	parent.ExtraChannelInfo = make([]bundle.ExtraChannelInfo, o.ec)

	r := &rt.RefReader{D: data}
	h03Force(true, r, 1, uint64(o.allDef))
	all := r.Bool()
	var typ, enc uint32
	var flags uint64
	if !all {
		if o.types == 0 {
			rt.Assume(r.Left() < 2 || rt.RefBits(r.D, r.P, 2) == 0 || rt.RefBits(r.D, r.P, 2) == 3)
		}
		h03Force(o.types < 0, r, 3, 0)
		h03Force(o.types == 2, r, 3, 2)
		typ = uint32(rt.Concrete(int(r.U(2))))
		enc = uint32(rt.Concrete(int(r.U(1))))
		h03Force(o.flags == 0, r, 2, 0)
		if o.flags == 1 && !rt.Thorough() {
			rt.Assume(r.Left() < 2 || rt.RefBits(r.D, r.P, 2) != 3)
		}
		if o.flags == 1 && rt.Thorough() && r.Left() >= 24 && rt.RefBits(r.D, r.P, 2) == 3 {
			rt.Assume(rt.RefBits(r.D, r.P+14, 1) == 0 || rt.RefBits(r.D, r.P+23, 1) == 0)
		}
		flags = r.U64()
	}
	lf := flags&32 != 0
	ycc := false
	var jx, jy [3]int32
	if !all && !xyb {
		h03Force(!o.jpeg, r, 1, 0)
		ycc = r.Bool()
	}
	if ycc && !lf {
		for i := range jx {
			// the subsampling code: 1 both, 2 horizontal, 3 vertical
			m := rt.Concrete(int(r.U(2)))
			jx[i] = []int32{0, 1, 1, 0}[m]
			jy[i] = []int32{0, 1, 0, 1}[m]
		}
	}
	up := uint32(1)
	ecUp := make([]uint32, o.ec)
	for i := range ecUp {
		ecUp[i] = 1
	}
	if !all && !lf {
		h03Force(!o.up, r, 2, 0)
		up = 1 << uint(rt.Concrete(int(r.U(2))))
		for i := range ecUp {
			ecUp[i] = 1 << r.U(2)
		}
	}
	ecBad := false
	for i := range ecUp {
		if o.up && !o.tail && i == 0 {
			d := 0
			if rt.Thorough() {
				d = rt.Concrete(rt.Int(0, 3))
			} else {
				d = 2 * rt.Concrete(rt.Int(0, 1))
			}
			parent.ExtraChannelInfo[i].DimShift = int32(d)
			ecUp[i] <<= uint(d)
		}
		ecBad = ecBad || ecUp[i] < up || ecUp[i] > 8
	}
	shift := uint32(1)
	if enc == MODULAR {
		shift = uint32(rt.Concrete(int(r.U(2))))
	}
	xqm, bqm := uint32(2), uint32(2)
	if xyb && enc == VARDCT {
		xqm = 3
		if !all {
			xqm, bqm = uint32(r.U(3)), uint32(r.U(3))
		}
	}
	var passes h03Passes
	passes.n = 1
	if !all && typ != REFERENCE_ONLY {
		h03Force(!o.passes, r, 2, 0)
		passes = h03RefPasses(r, 3)
	}
	lfLevel := uint32(0)
	if typ == LF_FRAME {
		lfLevel = 1 + uint32(rt.Concrete(int(r.U(2))))
	}
	crop := false
	if !all && typ != LF_FRAME {
		h03Force(!o.crop, r, 1, 0)
		crop = r.Bool()
	}
	var x0, y0 int64
	bw, bh := uint64(w), uint64(hh)
	unpack := func(v uint32) int64 {
		if v&1 == 1 {
			return -int64(v>>1) - 1
		}
		return int64(v >> 1)
	}
	if crop {
		// a path per width of the fields keeps the rest at fixed positions
		n := 4
		if typ == REFERENCE_ONLY {
			n = 2
		}
		for q, i, pick := *r, 0, 0; i < n; i++ {
			was := pick
			pick = rt.Concrete(int(q.U(2)))
			rt.Assume(rt.Thorough() || i&1 == 0 || pick == was || pick == (was+1)&3)
			q.U([]int{8, 11, 14, 30}[pick])
		}
		if typ != REFERENCE_ONLY {
			x0 = unpack(r.U32(0, 8, 256, 11, 2304, 14, 18688, 30))
			y0 = unpack(r.U32(0, 8, 256, 11, 2304, 14, 18688, 30))
		}
		bw = uint64(r.U32(0, 8, 256, 11, 2304, 14, 18688, 30))
		bh = uint64(r.U32(0, 8, 256, 11, 2304, 14, 18688, 30))
	}
	full := x0 <= 0 && y0 <= 0 && x0+int64(bw) >= int64(w) && y0+int64(bh) >= int64(hh)
	if full {
		full = true
	}
	normal := !all && (typ == REGULAR_FRAME || typ == SKIP_PROGRESSIVE)
	var blend h03Blend
	ecBlend := make([]h03Blend, o.ec)
	last := typ == REGULAR_FRAME
	if normal {
		h03Force(!o.blend, r, 2, 0)
		blend = h03RefBlend(r, o.ec > 0, full)
		for i := range ecBlend {
			if !o.blend || i > 0 {
				h03Force(true, r, 2, 0)
			}
			ecBlend[i] = h03RefBlend(r, true, full)
			if o.blend && ecBlend[i].alpha >= uint32(o.ec) {
				r.Bad = true // an alpha channel that does not exist
			}
		}
		if o.blend && o.ec > 0 && blend.alpha >= uint32(o.ec) {
			r.Bad = true
		}
		h03Force(o.types < 0 && !o.crop, r, 1, 1)
		last = r.Bool()
	}
	save := uint32(0)
	if !all && typ != LF_FRAME && !last {
		save = uint32(r.U(2))
	}
	before := false
	if !all && (typ == REFERENCE_ONLY || normal && full && !last && blend.mode == 0) {
		before = r.Bool()
	}
	var name []byte
	f := h03DefFilter()
	var key uint64
	if !all {
		h03Force(!o.tail, r, 2, 0)
		n := r.U32(0, 0, 0, 4, 16, 5, 48, 10)
		rt.Assume(n <= uint32(o.maxName))
		for i := 0; i < rt.Concrete(int(n)); i++ {
			name = append(name, byte(r.U(8)))
		}
		h03Force(true, r, 1, 1)
		r.U(1)
		h03Force(!o.tail || o.maxName > 3, r, 2, 0)
		key = r.U64()
		rt.Assume(key <= 2)
		for i := 0; i < 2; i++ {
			if key>>uint(i)&1 == 1 {
				n := r.U64()
				rt.Assume(n <= 9)
				r.U(rt.Concrete(int(n)))
			}
		}
	}
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	h, err := NewFrameHeaderWithReader(br, parent)
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "a truncated frame header is an error")
		rt.Reach("truncated")
		return
	}
	if ecBad {
		rt.Assert(err != nil, "an extra channel is at most as large as the colour channels and an eighth of the image at least")
		rt.Reach("extra channel upsampling rejected")
		return
	}
	rt.Assert(err == nil, "a complete frame header is accepted")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the header's bits are consumed")
	rt.Assert(h.FrameType == typ && h.Encoding == enc && h.Flags == flags, "frame type, encoding and flags are those in the stream")
	rt.Assert(h.DoYCbCr == ycc, "the YCbCr flag is the one in the stream")
	mx, my := int32(0), int32(0)
	for i := range jx {
		mx, my = max(mx, jx[i]), max(my, jy[i])
	}
	for i := range jx {
		rt.Assert(h.jpegUpsamplingX[i] == mx-jx[i] && h.jpegUpsamplingY[i] == my-jy[i], "chroma subsampling shifts are relative to the finest channel")
	}
	rt.Assert(h.Upsampling == up, "upsampling is the factor in the stream")
	rt.Assert(len(h.EcUpsampling) == o.ec && len(h.EcBlendingInfo) == o.ec, "one upsampling factor and blending info per extra channel")
	for i := range ecUp {
		rt.Assert(h.EcUpsampling[i] == ecUp[i], "extra channel upsampling is the factor in the stream times the one of its dimension shift")
	}
	rt.Assert(h.groupSizeShift == shift && h.groupDim == 128<<shift && h.lfGroupDim == 1024<<shift && h.logGroupDim == 7+shift && h.logLFGroupDIM == 10+shift, "group dimensions follow the group size shift")
	rt.Assert(h.xqmScale == xqm && h.bqmScale == bqm, "quantisation matrix scales are those the format defines")
	passes.check(h.passes)
	rt.Assert(h.LfLevel == lfLevel, "LF level is the one in the stream")
	bw = ceilDiv(ceilDiv(bw, uint64(up)), 1<<(3*lfLevel))
	bh = ceilDiv(ceilDiv(bh, uint64(up)), 1<<(3*lfLevel))
	bw = ceilDiv(bw, 1<<uint(mx)) << uint(mx)
	bh = ceilDiv(bh, 1<<uint(my)) << uint(my)
	rt.Assert(int64(h.Bounds.Origin.X) == x0 && int64(h.Bounds.Origin.Y) == y0, "the crop origin is the one in the stream")
	rt.Assert(uint64(h.Bounds.Size.Width) == bw && uint64(h.Bounds.Size.Height) == bh, "frame dimensions follow from crop, upsampling, LF level and subsampling")
	blend.check(h.BlendingInfo)
	for i := range ecBlend {
		ecBlend[i].check(&h.EcBlendingInfo[i])
	}
	rt.Assert(h.Duration == 0 && h.timecode == 0, "a still image's frame has no duration")
	rt.Assert(h.IsLast == last, "the last-frame flag is the one the format defines")
	rt.Assert(h.SaveAsReference == save && h.SaveBeforeCT == before, "reference fields are those the format defines")
	rt.Assert(h.name == string(name), "the name is the one in the stream")
	rt.Assert(f.same(h.restorationFilter), "the default filter has the format's default values")
	rt.Assert(h.extensions.ExtensionsKey == key, "the extension key is the one in the stream")
	rt.Reach("ok")
}

func VH_H03_AllDefault() {
	h03Frame(h03Opt{allDef: 1, size: 1, ec: rt.Concrete(rt.Int(0, 2)), xyb: 2})
}

func VH_H03_Types() {
	h03Frame(h03Opt{types: 1, flags: 1, size: 6, ec: 0, xyb: 2, up: false})
}

func VH_H03_Upsampling() {
	h03Frame(h03Opt{types: 1, size: 7, ec: rt.Concrete(rt.Int(0, 2)), xyb: 0, up: true})
}

func VH_H03_Subsampling() {
	h03Frame(h03Opt{types: 0, size: 6, xyb: 0, jpeg: true})
}

func VH_H03_Crop() {
	h03Frame(h03Opt{types: -1, size: 20, ec: 0, xyb: 1, crop: true})
}

func VH_H03_CropReference() {
	h03Frame(h03Opt{types: 2, size: 12, ec: 0, xyb: 1, crop: true})
}

func VH_H03_CropTruncated() {
	h03Frame(h03Opt{types: 0, size: rt.Concrete(rt.Int(0, 5)), ec: 0, xyb: 0, crop: true})
}

func VH_H03_Blend() {
	h03Frame(h03Opt{types: 0, size: 20, ec: rt.Concrete(rt.Int(0, 2)), xyb: 0, blend: true})
}

func VH_H03_Progressive() {
	h03Frame(h03Opt{types: -1, size: 8, ec: 0, xyb: 0, passes: true})
}

func VH_H03_Tail() {
	h03Frame(h03Opt{types: -1, size: 8, ec: 0, xyb: 0, tail: true, maxName: 3})
}

func VH_H03_LongName() {
	h03Frame(h03Opt{types: -1, size: 24, ec: 0, xyb: 0, tail: true, maxName: 17})
}

func VH_H03_Truncated() {
	h03Frame(h03Opt{types: 1, size: rt.Concrete(rt.Int(0, 3)), ec: 1, xyb: 2, up: true, jpeg: true, tail: true, blend: true, maxName: 2})
}
