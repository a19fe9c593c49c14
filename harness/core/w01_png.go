package core

import (
	"hash/crc32"

	"github.com/kpfaulkner/jxl-go/bundle"
	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: images of 1x1, 2x1, 1x2 and 3x2 samples; RGB and grey, without alpha, with alpha and with a depth channel in front of the alpha channel; integer samples of 8 and 16 bits: every 32-bit value; depths 1, 4, 10 (thorough: also 2, 5, 12): every sample; float samples: every 32-bit pattern
// bound: ICC profiles of 0 to 5 arbitrary bytes, every rendering intent; the file is written twice and must be the same
// outside: HDR images (PQ, HLG, linear or wide-gamut), premultiplied alpha (refused), transfer functions (K01), the deflate coding (zlib writer modelled as stored blocks), interlacing

type w01Chunk struct {
	t    string
	data []byte
}

// w01Chunks takes a PNG file apart.
func w01Chunks(b []byte, checkCRC bool) []w01Chunk {
	sig := []byte{0x89, 'P', 'N', 'G', 13, 10, 26, 10}
	rt.Assert(len(b) >= 8, "the file starts with the PNG signature")
	for i := range sig {
		rt.Assert(b[i] == sig[i], "the file starts with the PNG signature")
	}
	var out []w01Chunk
	p := 8
	for p < len(b) {
		rt.Assert(len(b)-p >= 12, "the chunks fill the file")
		n := int(b[p])<<24 | int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3])
		rt.Assert(n <= len(b)-p-12, "the chunks fill the file")
		if checkCRC {
			crc := uint32(rt.BE(b[p+8+n : p+12+n]))
			rt.Assert(crc == crc32.ChecksumIEEE(b[p+4:p+8+n]), "every chunk ends with the CRC of its type and data")
		}
		out = append(out, w01Chunk{string(b[p+4 : p+8]), b[p+8 : p+8+n]})
		p += 12 + n
	}
	return out
}

// w01Write writes the image and checks everything but the samples, which it returns.
func w01Write(img *JXLImage, l zzLayout, w, h int, depth int, icc []byte, intent byte, crc bool) []byte {
	var isInt []bool
	for c := range img.Buffer {
		isInt = append(isInt, img.Buffer[c].IsInt())
	}
	ints, floats := zzCopy(img.Buffer)
	var s zzSink
	rt.Merge(true)
	err := (&PNGWriter{}).WritePNG(img, &s)
	rt.Merge(false)
	rt.Assert(err == nil, "an image is written")
	ch := w01Chunks(s.b, crc)
	rt.Assert(len(ch) == 4, "header, colour, data and end chunk")
	rt.Assert(ch[0].t == "IHDR" && len(ch[0].data) == 13, "the header chunk comes first")
	d := ch[0].data
	ct := byte(2)
	if l.gray {
		ct = 0
	}
	if l.alpha >= 0 {
		ct += 4
	}
	rt.Assert(rt.BE(d[:4]) == uint64(w) && rt.BE(d[4:8]) == uint64(h), "the header has the size of the image")
	rt.Assert(int(d[8]) == depth, "the header has the bit depth")
	rt.Assert(d[9] == ct, "the header has the colour type")
	rt.Assert(d[10] == 0 && d[11] == 0 && d[12] == 0, "deflate, adaptive filters, no interlacing")
	if len(icc) > 0 {
		rt.Assert(ch[1].t == "iCCP", "an image with a profile has a profile chunk")
		z := -1
		for i, v := range ch[1].data {
			if v == 0 {
				z = i
				break
			}
		}
		rt.Assert(z >= 1 && z <= 79 && z+1 < len(ch[1].data) && ch[1].data[z+1] == 0, "the profile has a name and compression method 0")
		got, ok := rt.Unwrap(ch[1].data[z+2:])
		rt.Assert(ok && len(got) == len(icc), "the profile chunk holds the profile")
		for i := range icc {
			rt.Assert(got[i] == icc[i], "the profile chunk holds the profile")
		}
	} else {
		rt.Assert(ch[1].t == "sRGB" && len(ch[1].data) == 1 && ch[1].data[0] == intent, "an sRGB image has its rendering intent")
	}
	rt.Assert(ch[2].t == "IDAT", "the samples come next")
	rt.Assert(ch[3].t == "IEND" && len(ch[3].data) == 0, "the end chunk comes last")
	raw, ok := rt.Unwrap(ch[2].data)
	rt.Assert(ok, "the samples decompress")
	n := l.colours()
	if l.alpha >= 0 {
		n++
	}
	rt.Assert(len(raw) == h*(1+w*n*depth/8), "as many samples as the header says")
	zzUnchanged(img, isInt, ints, floats)
	return raw
}

// w01Channels gives the channels in file order.
func w01Channels(l zzLayout) []int {
	ch := []int{0, 1, 2}[:l.colours()]
	if l.alpha >= 0 {
		ch = append(ch, l.colours()+l.alpha)
	}
	return ch
}

// w01Sample reads a sample of the unfiltered rows.
func w01Sample(raw []byte, w, n, depth, y, x, k int) int32 {
	bps := depth / 8
	p := y*(1+w*n*bps) + 1 + (x*n+k)*bps
	if bps == 2 {
		return int32(raw[p])<<8 | int32(raw[p+1])
	}
	return int32(raw[p])
}

func w01Size() (int, int) {
	s := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}}[rt.Concrete(rt.Int(0, 3))]
	return s[0], s[1]
}

// VH_W01_Ints: integer samples of 8 and 16 bits.
func VH_W01_Ints() {
	w, h := w01Size()
	l := zzLayouts[rt.Concrete(rt.Int(0, len(zzLayouts)-1))]
	depth := 8 * rt.Concrete(rt.Int(1, 2))
	hd := zzHeader(l, w, h, uint32(depth), uint32(depth))
	var buf []image2.ImageBuffer
	for c := 0; c < l.colours()+len(l.extra); c++ {
		m := make([][]int32, h)
		for y := range m {
			m[y] = make([]int32, w)
			for x := range m[y] {
				m[y][x] = rt.I32()
			}
		}
		buf = append(buf, *image2.NewImageBufferFromInts(m))
	}
	ints, _ := zzCopy(buf)
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	for round := 0; round < 2; round++ {
		raw := w01Write(img, l, w, h, depth, nil, 1, true)
		ch := w01Channels(l)
		for y := 0; y < h; y++ {
			rt.Assert(raw[y*(len(raw)/h)] == 0, "rows are not filtered")
			for x := 0; x < w; x++ {
				for k, c := range ch {
					rt.Merge(true)
					want := zzClamp(ints[c][y][x], 1<<uint(depth)-1)
					rt.Merge(false)
					rt.Assert(w01Sample(raw, w, len(ch), depth, y, x, k) == want, "every sample is written in place")
				}
			}
		}
	}
	rt.Reach("written")
}

// VH_W01_Depths: integer samples of other depths are scaled.
func VH_W01_Depths() {
	l := zzLayouts[rt.Concrete(rt.Int(0, 3))]
	depths := []int{1, 4, 10}
	if rt.Thorough() {
		depths = []int{1, 2, 4, 5, 10, 12}
	}
	depth := depths[rt.Concrete(rt.Int(0, len(depths)-1))]
	out := 8
	if depth > 8 {
		out = 16
	}
	max := int32(1)<<uint(depth) - 1
	n := l.colours() + len(l.extra)
	at := rt.Concrete(rt.Int(0, n-1)) // the channel with the arbitrary sample
	hd := zzHeader(l, 1, 1, uint32(depth), uint32(depth))
	var buf []image2.ImageBuffer
	var want []int32
	for c := 0; c < n; c++ {
		v := int32(c) * max / int32(n)
		if c == at {
			v = int32(rt.Int(0, int(max)))
		}
		want = append(want, v)
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{v}}))
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	raw := w01Write(img, l, 1, 1, out, nil, 1, false)
	ch := w01Channels(l)
	for k, c := range ch {
		rt.Assert(zzScaled(w01Sample(raw, 1, len(ch), out, 0, 0, k), want[c], max, 1<<uint(out)-1), "samples are scaled to the depth of the file")
	}
	rt.Reach("written")
}

// VH_W01_Mixed: colour and alpha of different depths.
func VH_W01_Mixed() {
	l := zzLayouts[2+rt.Concrete(rt.Int(0, 1))]
	d := [][2]int{{8, 1}, {8, 16}, {16, 8}, {10, 8}, {4, 8}}[rt.Concrete(rt.Int(0, 4))]
	out := 8
	if d[0] > 8 {
		out = 16
	}
	hd := zzHeader(l, 1, 1, uint32(d[0]), uint32(d[1]))
	n := l.colours()
	alpha := rt.Bool()
	var buf []image2.ImageBuffer
	var want, max []int32
	for c := 0; c <= n; c++ {
		m := int32(1)<<uint(d[0]) - 1
		if c == n {
			m = int32(1)<<uint(d[1]) - 1
		}
		v := m / int32(c+2)
		if alpha == (c == n) && (c == n || c == 0) {
			v = m/2 - m/2%8 + int32(rt.Int(0, 7))%(m+1)
			if m < 8 {
				v = int32(rt.Int(0, int(m)))
			}
		}
		want, max = append(want, v), append(max, m)
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{v}}))
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	raw := w01Write(img, l, 1, 1, out, nil, 1, false)
	ch := w01Channels(l)
	for k, c := range ch {
		rt.Assert(zzScaled(w01Sample(raw, 1, len(ch), out, 0, 0, k), want[c], max[c], 1<<uint(out)-1), "samples are scaled to the depth of the file")
	}
	rt.Reach("written")
}

// VH_W01_Floats: float samples.
func VH_W01_Floats() {
	l := zzLayouts[rt.Concrete(rt.Int(0, 3))]
	depth := 8 * rt.Concrete(rt.Int(1, 2))
	n := l.colours() + len(l.extra)
	at := rt.Concrete(rt.Int(0, n-1)) // the channel with the arbitrary sample
	hd := zzHeader(l, 1, 1, uint32(depth), uint32(depth))
	max := int32(1)<<uint(depth) - 1
	var buf []image2.ImageBuffer
	var want []float32
	for c := 0; c < n; c++ {
		v := float32(c) / float32(n)
		if c == at {
			v = rt.F32()
		}
		want = append(want, v)
		buf = append(buf, *image2.NewImageBufferFromFloats([][]float32{{v}}))
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	raw := w01Write(img, l, 1, 1, depth, nil, 1, false)
	ch := w01Channels(l)
	for k, c := range ch {
		rt.Merge(true)
		ok := zzNearest(w01Sample(raw, 1, len(ch), depth, 0, 0, k), want[c], max)
		rt.Merge(false)
		rt.Assert(ok, "float samples become the nearest integers")
	}
	rt.Reach("written")
}

// VH_W01_Colour: profiles and rendering intents.
func VH_W01_Colour() {
	l := zzLayouts[rt.Concrete(rt.Int(0, 1))]
	hd := zzHeader(l, 1, 1, 8, 8)
	intent := int32(rt.Int(0, 3))
	hd.ColourEncoding.RenderingIntent = intent
	icc := rt.Bytes(rt.Concrete(rt.Int(0, 5)))
	var buf []image2.ImageBuffer
	for c := 0; c < l.colours(); c++ {
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{int32(c * 40)}}))
	}
	if len(icc) > 0 {
		hd.DecodedICC = icc
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	raw := w01Write(img, l, 1, 1, 8, icc, byte(intent), true)
	for c := 0; c < l.colours(); c++ {
		rt.Assert(int(raw[1+c]) == c*40, "every sample is written in place")
	}
	rt.Reach("written")
}

// VH_W01_Premultiplied: premultiplied alpha is refused, not written wrongly.
func VH_W01_Premultiplied() {
	l := zzLayouts[2+rt.Concrete(rt.Int(0, 1))]
	hd := zzHeader(l, 1, 1, 8, 8)
	hd.ExtraChannelInfo[0].AlphaAssociated = true
	var buf []image2.ImageBuffer
	v := int32(rt.U8())
	a := int32(rt.U8())
	for c := 0; c < l.colours(); c++ {
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{v}}))
	}
	buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{a}}))
	rt.Assume(a > 0 && a < 255 && v > 0 && v <= a)
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	var s zzSink
	rt.Merge(true)
	err = (&PNGWriter{}).WritePNG(img, &s)
	rt.Merge(false)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ch := w01Chunks(s.b, false)
	raw, ok := rt.Unwrap(ch[2].data)
	rt.Assert(ok, "the samples decompress")
	rt.Assert(zzScaled(int32(raw[1]), v, a, 255), "premultiplied samples are divided by alpha")
	rt.Reach("divided")
}

var _ = bundle.ALPHA
