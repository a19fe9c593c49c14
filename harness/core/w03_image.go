package core

import (
	"image"

	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: sRGB images of 1x1, 2x1, 1x2 and 3x2 samples, RGB and grey, without extra channels, with alpha and with a depth channel in front of the alpha channel; integer samples of 8 bits: every 32-bit value; depths 1, 4, 10 (thorough: also 2, 5, 12): every sample of one channel of a 1x1 image; float samples: every 32-bit pattern of one channel of a 1x1 image
// bound: every channel, extra ones included, converted on its own; every conversion done twice on the same image
// outside: other colour spaces and transfer functions (K01), premultiplied alpha (refused with an error), the alpha channel of grey images (the result is image.Gray)

// w03Pixels returns the channels of a converted image in raster order and their file channels.
func w03Pixels(im image.Image, l zzLayout, w, h int) (pix [][]int32, chans []int) {
	rt.Assert(im.Bounds().Dx() == w && im.Bounds().Dy() == h && im.Bounds().Min.X == 0 && im.Bounds().Min.Y == 0, "the image has the size of the decoded image")
	if l.gray {
		g, ok := im.(*image.Gray)
		rt.Assert(ok, "grey images stay grey")
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				pix = append(pix, []int32{int32(g.Pix[g.PixOffset(x, y)])})
			}
		}
		return pix, []int{0}
	}
	g, ok := im.(*image.NRGBA)
	rt.Assert(ok, "colour images are NRGBA")
	chans = []int{0, 1, 2}
	if l.alpha >= 0 {
		chans = append(chans, 3+l.alpha)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			o := g.PixOffset(x, y)
			var p []int32
			for k := 0; k < 4; k++ {
				p = append(p, int32(g.Pix[o+k]))
			}
			if l.alpha < 0 {
				rt.Assert(p[3] == 255, "images without alpha are opaque")
			}
			pix = append(pix, p)
		}
	}
	return
}

// w03Convert converts the image and checks that it stays as it was.
func w03Convert(img *JXLImage, channel int) image.Image {
	var isInt []bool
	for c := range img.Buffer {
		isInt = append(isInt, img.Buffer[c].IsInt())
	}
	ints, floats := zzCopy(img.Buffer)
	var im image.Image
	var err error
	rt.Merge(true)
	if channel < 0 {
		im, err = img.ToImage()
	} else {
		im, err = img.ChannelToImage(channel)
	}
	rt.Merge(false)
	rt.Assert(err == nil, "an image is converted")
	zzUnchanged(img, isInt, ints, floats)
	return im
}

// VH_W03_Ints: 8-bit integer samples.
func VH_W03_Ints() {
	s := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}}[rt.Concrete(rt.Int(0, 3))]
	w, h := s[0], s[1]
	l := zzLayouts[rt.Concrete(rt.Int(0, len(zzLayouts)-1))]
	hd := zzHeader(l, w, h, 8, 8)
	var buf []image2.ImageBuffer
	n := l.colours() + len(l.extra)
	for c := 0; c < n; c++ {
		m := make([][]int32, h)
		for y := range m {
			m[y] = make([]int32, w)
			for x := range m[y] {
				m[y][x] = rt.I32()
			}
		}
		buf = append(buf, *image2.NewImageBufferFromInts(m))
	}
	ints, _ := zzCopy(buf)
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	check := func(pix [][]int32, ch []int) {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				for k, c := range ch {
					rt.Merge(true)
					want := zzClamp(ints[c][y][x], 255)
					rt.Merge(false)
					rt.Assert(pix[y*w+x][k] == want, "every sample is converted in place")
				}
			}
		}
	}
	for round := 0; round < 2; round++ {
		check(w03Pixels(w03Convert(img, -1), l, w, h))
	}
	for c := 0; c < n; c++ {
		pix, _ := w03Pixels(w03Convert(img, c), zzLayouts[1], w, h)
		check(pix, []int{c})
	}
	_, err = img.ChannelToImage(n)
	rt.Assert(err != nil, "a channel that does not exist is refused")
	_, err = img.ChannelToImage(-1)
	rt.Assert(err != nil, "a channel that does not exist is refused")
	rt.Reach("converted")
}

// VH_W03_Depths: integer samples of other depths are scaled.
func VH_W03_Depths() {
	l := zzLayouts[1+rt.Concrete(rt.Int(0, 1))]
	depths := []int{1, 4, 10}
	if rt.Thorough() {
		depths = []int{1, 2, 4, 5, 10, 12}
	}
	depth := depths[rt.Concrete(rt.Int(0, len(depths)-1))]
	max := int32(1)<<uint(depth) - 1
	n := l.colours() + len(l.extra)
	at := rt.Concrete(rt.Int(0, n-1)) // the channel with the arbitrary sample
	hd := zzHeader(l, 1, 1, uint32(depth), uint32(depth))
	var buf []image2.ImageBuffer
	var want []int32
	for c := 0; c < n; c++ {
		v := int32(c) * max / int32(n)
		if c == at {
			v = int32(rt.Int(0, int(max)))
		}
		want = append(want, v)
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{v}}))
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	pix, ch := w03Pixels(w03Convert(img, -1), l, 1, 1)
	for k, c := range ch {
		rt.Assert(zzScaled(pix[0][k], want[c], max, 255), "samples are scaled to 8 bits")
	}
	one, _ := w03Pixels(w03Convert(img, at), zzLayouts[1], 1, 1)
	rt.Assert(zzScaled(one[0][0], want[at], max, 255), "samples are scaled to 8 bits")
	rt.Reach("converted")
}

// VH_W03_Floats: float samples.
func VH_W03_Floats() {
	l := zzLayouts[rt.Concrete(rt.Int(0, 3))]
	n := l.colours() + len(l.extra)
	at := rt.Concrete(rt.Int(0, n-1))
	hd := zzHeader(l, 1, 1, 8, 8)
	var buf []image2.ImageBuffer
	var want []float32
	for c := 0; c < n; c++ {
		v := float32(c) / float32(n)
		if c == at {
			v = rt.F32()
		}
		want = append(want, v)
		buf = append(buf, *image2.NewImageBufferFromFloats([][]float32{{v}}))
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	pix, ch := w03Pixels(w03Convert(img, -1), l, 1, 1)
	for k, c := range ch {
		rt.Merge(true)
		ok := zzNearest(pix[0][k], want[c], 255)
		rt.Merge(false)
		rt.Assert(ok, "float samples become the nearest integers")
	}
	one, _ := w03Pixels(w03Convert(img, at), zzLayouts[1], 1, 1)
	rt.Merge(true)
	ok := zzNearest(one[0][0], want[at], 255)
	rt.Merge(false)
	rt.Assert(ok, "float samples become the nearest integers")
	rt.Reach("converted")
}

// VH_W03_Mixed: colour and alpha of different depths.
func VH_W03_Mixed() {
	l := zzLayouts[2]
	d := [][2]int{{8, 1}, {10, 8}, {8, 4}}[rt.Concrete(rt.Int(0, 2))]
	hd := zzHeader(l, 1, 1, uint32(d[0]), uint32(d[1]))
	alpha := rt.Bool()
	var buf []image2.ImageBuffer
	var want, max []int32
	for c := 0; c < 4; c++ {
		m := int32(1)<<uint(d[0]) - 1
		if c == 3 {
			m = int32(1)<<uint(d[1]) - 1
		}
		v := m / int32(c+2)
		if alpha == (c == 3) && (c == 3 || c == 0) {
			v = m/2 - m/2%8 + int32(rt.Int(0, 7))
			if m < 16 {
				v = int32(rt.Int(0, int(m)))
			}
		}
		want, max = append(want, v), append(max, m)
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{v}}))
	}
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	pix, ch := w03Pixels(w03Convert(img, -1), l, 1, 1)
	for k, c := range ch {
		rt.Assert(zzScaled(pix[0][k], want[c], max[c], 255), "samples are scaled to 8 bits")
	}
	rt.Reach("converted")
}
