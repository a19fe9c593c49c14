package core

import (
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: whole codestreams from the signature to the image: lossless modular frames with one tree leaf (predictors zero, west, north), samples coded with a token and 1 to 12 further bits of any value
// outside: VarDCT frames, XYB images, upsampling, restoration filters and entropy codes with more than one symbol in whole streams (each decided on its own by the other properties)
// VH_D01_Single: a stream of one frame decodes to its samples.
func VH_D01_Single() {
	m := dImage{colours: 1 + 2*rt.Concrete(rt.Int(0, 1)), alpha: rt.Concrete(rt.Int(0, 1)), orient: 1}
	s := [][2]int{{1, 1}, {3, 2}, {1, 4}}[rt.Concrete(rt.Int(0, 2))]
	m.w, m.h = s[0], s[1]
	f := &dFrame{last: true, shift: 1, token: []int{2, 8, 13}[rt.Concrete(rt.Int(0, 2))], pred: rt.Concrete(rt.Int(0, 2))}
	f.rct = m.colours == 3 && rt.Concrete(rt.Int(0, 1)) == 1
	rt.Merge(true)
	want := f.fill(m)
	var b dBits
	b.header(m)
	b.frame(m, f)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the stream decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
	rt.Reach("single")
}

// VH_D01_Orient: the image is turned as the header says.
func VH_D01_Orient() {
	m := dImage{w: 3, h: 2, colours: 1, alpha: rt.Concrete(rt.Int(0, 1)), orient: rt.Concrete(rt.Int(1, 8))}
	f := &dFrame{last: true, shift: 1, token: 9, pred: 1}
	rt.Merge(true)
	want := f.fill(m)
	var b dBits
	b.header(m)
	b.frame(m, f)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the stream decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
	rt.Reach("orient")
}

// bound: images of one to four groups (up to 130 samples in one direction)
// VH_D01_Groups: images of several groups decode to their samples.
func VH_D01_Groups() {
	m := dImage{colours: 1, orient: 1}
	n := 3
	if rt.Thorough() {
		n = 5
	}
	s := [][2]int{{130, 1}, {2, 129}, {128, 1}, {129, 2}, {1, 257}}[rt.Concrete(rt.Int(0, n-1))]
	m.w, m.h = s[0], s[1]
	f := &dFrame{last: true, token: 4, pred: rt.Concrete(rt.Int(0, 1))}
	rt.Merge(true)
	want := f.fill(m)
	var b dBits
	b.header(m)
	b.frame(m, f)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the stream decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
	rt.Reach("groups")
}

// bound: one image of two LF groups and nine groups, whose last two groups are symbolic; every order of five sections with two or three Lehmer codes
// VH_D01_Order: sections are found in any order.
func VH_D01_Order() {
	m := dImage{w: 129, h: 1, colours: 1, orient: 1}
	codes := [][]int{{2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 2, 2}, {3, 2, 2}, {2, 3, 2}, {3, 3, 2}}
	f := &dFrame{last: true, token: 2, pred: 1, lehmer: codes[rt.Concrete(rt.Int(0, len(codes)-1))]}
	dOne(m, f, f.fill)
	rt.Reach("order")
}

// VH_D01_LFGroups: images of several LF groups decode to their samples.
func VH_D01_LFGroups() {
	m := dImage{w: 1, h: 1025, colours: 1, orient: 1}
	f := &dFrame{last: true, token: 4, pred: 1}
	dOne(m, f, func(m dImage) [][]int32 {
		f.width, f.height, f.groups = m.w, m.h, 9
		v, out := f.plane(m.w, m.h, func(i int) uint32 {
			if i < 1023 {
				return uint32(i*5) & 7
			}
			return uint32(rt.U8()) & 7
		})
		f.samples = [][]uint32{v}
		return [][]int32{out}
	})
	rt.Reach("LF groups")
}

func dOne(m dImage, f *dFrame, fill func(dImage) [][]int32) {
	rt.Merge(true)
	want := fill(m)
	var b dBits
	b.header(m)
	b.frame(m, f)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the stream decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
}

// bound: a palette of three colours over images of up to 3x2 samples, one squeeze of one channel of up to 4 samples in either direction
// VH_D01_Palette: the colours of a palette reach the image.
func VH_D01_Palette() {
	m := dImage{w: 3, h: 1 + rt.Concrete(rt.Int(0, 1)), colours: 3, alpha: rt.Concrete(rt.Int(0, 1)), orient: 1}
	f := &dFrame{last: true, shift: 1, token: 2, pred: 1}
	n := 3 + m.alpha*rt.Concrete(rt.Int(0, 1)) // with the alpha channel, or without
	f.trans = func(s *dBits) {
		s.put(1, 2)
		s.put(1, 2)   // palette
		s.put(0, 2+3) // from the first channel
		s.put(uint64(n-2), 2)
		s.put(0, 2)
		s.put(3, 8) // three colours
		s.put(0, 2) // no deltas
		s.put(0, 4)
	}
	dOne(m, f, func(m dImage) [][]int32 {
		f.width, f.height = m.w, m.h
		bit := func(int) uint32 { return uint32(rt.U8()) & 1 }
		pv, pal := f.plane(3, n, bit)
		// steps of +1 and -2 keep the index between 0 and 2
		var idx []int32
		at := []int{}
		iv, _ := f.plane(m.w, m.h, func(i int) uint32 {
			prev := 0
			if i%m.w > 0 {
				prev = at[i-1]
			} else if i > 0 {
				prev = at[i-m.w]
			}
			if prev == 2 {
				at = append(at, 0)
				return 1
			}
			at = append(at, prev+1)
			return 0
		})
		for _, k := range at {
			idx = append(idx, int32(k))
		}
		f.samples = [][]uint32{pv, iv}
		var out [][]int32
		for c := 0; c < n; c++ {
			ch := make([]int32, m.w*m.h)
			for i := range ch {
				ch[i] = pal[3*c+int(idx[i])]
			}
			out = append(out, ch)
		}
		for c := n; c < 3+m.alpha; c++ {
			v, ch := f.plane(m.w, m.h, bit)
			f.samples = append(f.samples, v)
			out = append(out, ch)
		}
		return out
	})
	rt.Reach("palette")
}

// dTend is the expected difference between the halves of a squeezed pair.
func dTend(b, a, n int32) int32 {
	if b >= a && a >= n {
		d := (4*b - 3*n - a + 6) / 12
		if d-d&1 > 2*(b-a) {
			d = 2*(b-a) + 1
		}
		if d+d&1 > 2*(a-n) {
			d = 2 * (a - n)
		}
		return d
	}
	if b <= a && a <= n {
		d := (4*b - 3*n - a - 6) / 12
		if d+d&1 < 2*(b-a) {
			d = 2*(b-a) - 1
		}
		if d-d&1 < 2*(a-n) {
			d = 2 * (a - n)
		}
		return d
	}
	return 0
}

// VH_D01_Squeeze: squeezed channels are put together again.
func VH_D01_Squeeze() {
	n := rt.Concrete(rt.Int(2, 4))
	tall := rt.Concrete(rt.Int(0, 1)) == 1
	inPlace := rt.Concrete(rt.Int(0, 1))
	m := dImage{w: n, h: 1, colours: 1, alpha: rt.Concrete(rt.Int(0, 1)), orient: 1}
	if tall {
		m.w, m.h = 1, n
	}
	f := &dFrame{last: true, shift: 1, token: 4}
	which := m.alpha * rt.Concrete(rt.Int(0, 1))
	f.trans = func(s *dBits) {
		s.put(1, 2)
		s.put(2, 2) // squeeze
		s.put(1, 2) // one step
		s.put(0, 4)
		if tall {
			s.put(0, 1)
		} else {
			s.put(1, 1)
		}
		s.put(uint64(inPlace), 1)
		s.put(0, 2)
		s.put(uint64(which), 3)
		s.put(0, 2) // one channel
	}
	dOne(m, f, func(m dImage) [][]int32 {
		f.width, f.height = m.w, m.h
		sym := func(int) uint32 { return uint32(rt.U8()) & 7 }
		line := func(n int) ([]uint32, []int32) {
			if tall {
				return f.plane(1, n, sym)
			}
			return f.plane(n, 1, sym)
		}
		av, avg := line((n + 1) / 2)
		rv, res := line(n / 2)
		var out []int32
		for i, a := range avg {
			if i >= len(res) {
				out = append(out, a)
				continue
			}
			left, next := a, a
			if i > 0 {
				left = out[2*i-1]
			}
			if i+1 < len(avg) {
				next = avg[i+1]
			}
			d := res[i] + dTend(left, a, next)
			t := a + d/2
			out = append(out, t, t-d)
		}
		if m.alpha == 0 {
			f.samples = [][]uint32{av, rv}
			return [][]int32{out}
		}
		ov, other := line(n)
		switch {
		case which == 1:
			f.samples = [][]uint32{ov, av, rv}
			return [][]int32{other, out}
		case inPlace == 1:
			f.samples = [][]uint32{av, rv, ov}
		default:
			f.samples = [][]uint32{av, ov, rv}
		}
		return [][]int32{out, other}
	})
	rt.Reach("squeeze")
}

// dBlend puts a frame onto the canvas.
func dBlend(m dImage, f *dFrame, canvas, ref, v [][]int32) [][]int32 {
	out := make([][]int32, len(v))
	for c := range v {
		out[c] = append([]int32{}, canvas[c]...)
		for y := 0; y < f.height; y++ {
			for x := 0; x < f.width; x++ {
				cx, cy := x+f.x0, y+f.y0
				if cx < 0 || cy < 0 || cx >= m.w || cy >= m.h {
					continue
				}
				s := v[c][y*f.width+x]
				if f.mode == 1 {
					s += ref[c][cy*m.w+cx]
				}
				out[c][cy*m.w+cx] = s
			}
		}
	}
	return out
}

// bound: sequences of two and three frames: full or cropped at seven places, replacing or adding, reference slots 0 to 3, reference-only frames
// outside: blending modes with alpha and frames whose crop is laid over another source than the canvas (blending itself is S01)
// VH_D01_Frames: later frames are laid over earlier ones.
func VH_D01_Frames() {
	m := dImage{w: 3, h: 2, colours: 1, alpha: rt.Concrete(rt.Int(0, 1)), orient: 1}
	slot := rt.Concrete(rt.Int(0, 3))
	a := &dFrame{shift: 1, token: 9, pred: 1, save: slot, extra: slot, early: rt.Concrete(rt.Int(0, 1)) == 1}
	only := rt.Concrete(rt.Int(0, 1)) == 1
	if only {
		a.kind = 2
	}
	z := &dFrame{shift: 1, token: 8, last: true, source: slot, mode: 1}
	if !only {
		z.mode = rt.Concrete(rt.Int(0, 1))
		crops := [][4]int{{0, 0, 0, 0}, {0, 0, 2, 1}, {1, 1, 2, 1}, {-1, 0, 3, 2}, {2, -1, 4, 2}, {-1, -1, 5, 4}, {3, 2, 1, 1}, {-2, 0, 2, 2}}
		k := rt.Concrete(rt.Int(0, len(crops)-1))
		z.crop = k > 0
		z.x0, z.y0, z.w, z.h = crops[k][0], crops[k][1], crops[k][2], crops[k][3]
	}
	rt.Merge(true)
	first := a.fill(m)
	var b dBits
	b.header(m)
	b.frame(m, a)
	second := z.fill(m)
	b.frame(m, z)
	canvas := first
	if only {
		canvas = make([][]int32, len(first))
		for c := range canvas {
			canvas[c] = make([]int32, m.w*m.h)
		}
	}
	want := dBlend(m, z, canvas, first, second)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the stream decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
	rt.Reach("frames")
}

// VH_D01_Keep: a saved frame stays as it was saved while later frames change the canvas.
func VH_D01_Keep() {
	m := dImage{w: 2, h: 2, colours: 1, alpha: rt.Concrete(rt.Int(0, 1)), orient: 1}
	p, q := rt.Concrete(rt.Int(0, 3)), rt.Concrete(rt.Int(0, 3))
	a := &dFrame{shift: 1, token: 9, pred: 1, save: p, name: "a"}
	e := &dFrame{shift: 1, token: 7, save: q, source: p, mode: rt.Concrete(rt.Int(0, 1))}
	if rt.Concrete(rt.Int(0, 1)) == 1 {
		e.crop, e.x0, e.y0, e.w, e.h = true, 1, 0, 1, 2
	}
	z := &dFrame{shift: 1, token: 8, last: true, mode: 1}
	z.source = []int{p, q}[rt.Concrete(rt.Int(0, 1))]
	rt.Merge(true)
	var b dBits
	b.header(m)
	first := a.fill(m)
	b.frame(m, a)
	second := e.fill(m)
	b.frame(m, e)
	third := z.fill(m)
	b.frame(m, z)
	refs := make([][][]int32, 4)
	refs[p] = first
	canvas := dBlend(m, e, first, first, second)
	refs[q] = canvas
	want := dBlend(m, z, canvas, refs[z.source], third)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the stream decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
	rt.Reach("keep")
}

func dBox(tag string, data ...byte) []byte {
	n := len(data) + 8
	out := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n), tag[0], tag[1], tag[2], tag[3]}
	return append(out, data...)
}

// bound: containers with a jxlc box of known or open length, with other boxes before and after it, or with two or three jxlp boxes that cut the codestream at any byte
// VH_D01_Container: a codestream in a container decodes like the bare one.
func VH_D01_Container() {
	m := dImage{w: 2, h: 1, colours: 1, orient: 1}
	f := &dFrame{last: true, shift: 1, token: 9, pred: 1}
	kind := rt.Concrete(rt.Int(0, 5))
	rt.Merge(true)
	want := f.fill(m)
	var b dBits
	b.header(m)
	b.frame(m, f)
	cs := b.bytes()
	rt.Merge(false)
	cut, cut2 := 0, len(cs)
	if kind > 3 {
		cut = rt.Concrete(rt.Int(0, len(cs)))
		cut2 = cut + (len(cs)-cut)/2
	}
	rt.Merge(true)
	data := append(dBox("JXL ", 0x0d, 0x0a, 0x87, 0x0a), dBox("ftyp", 'j', 'x', 'l', ' ', 0, 0, 0, 0, 'j', 'x', 'l', ' ')...)
	if kind&1 != 0 {
		data = append(data, dBox("Exif", 1, 2, 3, 4, 5, 0xff, 0x0a)...)
		data = append(data, dBox("jxll", 10)...)
	}
	c := dBox("jxlc", cs...)
	if kind > 3 {
		c = dBox("jxlp", append([]byte{0, 0, 0, 0}, cs[:cut]...)...)
		n := byte(1)
		if kind == 5 {
			c = append(c, dBox("brob", 'x', 'm', 'l', ' ', 0)...)
			c = append(c, dBox("jxlp", append([]byte{0, 0, 0, n}, cs[cut:cut2]...)...)...)
			cut = cut2
			n++
		}
		last := dBox("jxlp", append([]byte{0x80, 0, 0, n}, cs[cut:]...)...)
		if kind == 5 {
			last[3] = 0
		}
		c = append(c, last...)
	} else if kind&2 != 0 {
		c[3] = 0
	}
	data = append(data, c...)
	if kind == 1 {
		data = append(data, dBox("xml ", 'a', 'b')...)
	}
	img, err := dDecode(data)
	rt.Merge(false)
	rt.Assert(err == nil && img != nil, "the container decodes")
	if err != nil || img == nil {
		return
	}
	dSame(img, m, want)
	rt.Reach("container")
}

// VH_D01_Cut: a stream that ends early yields an error and no image.
func VH_D01_Cut() {
	m := dImage{w: 2, h: 2, colours: 1, alpha: 1, orient: 1}
	f := &dFrame{last: true, shift: 1, token: 9, pred: 1}
	two := rt.Concrete(rt.Int(0, 1)) == 1
	rt.Merge(true)
	f.fill(m)
	var b dBits
	b.header(m)
	if two {
		a := &dFrame{shift: 1, token: 9, pred: 1}
		a.fill(m)
		b.frame(m, a)
	}
	b.frame(m, f)
	data := b.bytes()
	rt.Merge(false)
	data = data[:rt.Concrete(rt.Int(0, len(data)-1))]
	var img *JXLImage
	var err error
	rt.Merge(true)
	bad := rt.Catch(func() { img, err = dDecode(data) })
	rt.Merge(false)
	rt.Assert(!bad, "a stream that ends early does not crash the decoder")
	if len(data) > 2 {
		rt.Assert(err != nil, "a stream that ends early is an error")
	}
	rt.Assert(img == nil, "a stream that ends early gives no image")
	rt.Reach("cut")
}

// VH_D01_Flags: frames with features that are not implemented yield an error.
func VH_D01_Flags() {
	m := dImage{w: 1, h: 1, colours: 1, orient: 1}
	f := &dFrame{last: true, shift: 1, token: 9}
	f.flags = rt.Concrete(rt.Int(0, 31))
	f.fill(m)
	var b dBits
	b.header(m)
	b.frame(m, f)
	rt.Merge(true)
	img, err := dDecode(b.bytes())
	rt.Merge(false)
	if f.flags&(1|2|16) != 0 {
		rt.Assert(err != nil && img == nil, "noise, patches and splines are reported as not implemented")
	} else {
		rt.Assert(err == nil && img != nil, "unused flags change nothing")
	}
	rt.Reach("flags")
}
