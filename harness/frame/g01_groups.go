package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: frames of 1..7 x 1..7 samples in groups of 4x4 (several rows and columns of groups), up to three channels with shifts 0..2, one pass
// bound: symbolic group data of 8 bits per sample; group counts and geometry for all frame sizes within the limits of level 10 (9x10 groups at most for the geometry)
// outside: decoded groups of the dimensions of real frames (128..1024; the dimension is a parameter of the code), transforms of group streams
// VH_G01_PassGroups: every sample of a channel coded in groups comes from the group its position lies in.
func VH_G01_PassGroups() {
	dim := 4
	shapes := []struct{ w, h int }{{5, 4}, {4, 5}, {7, 6}, {9, 2}, {3, 9}}
	if !rt.Thorough() {
		shapes = shapes[:4]
	}
	s := shapes[rt.Concrete(rt.Int(0, len(shapes)-1))]
	sets := [][][2]int{{{0, 0}}, {{0, 0}, {0, 0}}, {{1, 1}, {0, 0}}, {{2, 0}, {1, 2}}, {{0, 1}, {3, 3}, {2, 2}}}
	set := sets[rt.Concrete(rt.Int(0, len(sets)-1))]
	var chans []gCh
	for _, q := range set {
		chans = append(chans, gCh{gCeil(s.w, q[0]), gCeil(s.h, q[1]), q[0], q[1]})
	}
	f := gFrame(s.w, s.h, dim, 2, chans)
	f.Header.passes.numPasses = 1
	f.Header.passes.lastPass = []uint32{0}
	f.Header.passes.downSample = []uint32{1}
	ng := int(f.numGroups)
	nlf := int(f.numLFGroups)
	pred := int32(rt.Concrete(rt.Int(0, 1)))
	if !gTree(f, pred, 18+3*nlf, ng) {
		return
	}
	sec := make([][]byte, 2+nlf+ng)
	want := make([][][]int32, len(chans))
	for i, c := range chans {
		want[i] = util.MakeMatrix2D[int32](c.h, c.w)
	}
	for g := 0; g < ng; g++ {
		gy, gx := g/int(f.groupRowStride), g%int(f.groupRowStride)
		var bits []byte
		rt.Merge(true)
		for i, c := range chans {
			if c.hs >= 3 && c.vs >= 3 {
				continue
			}
			y0, x0, h, w := gPart(c, gy, gx, dim)
			d := rt.Bytes(h * w)
			bits = append(bits, d...)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					v := gSample(uint32(d[y*w+x])) + int32(8*g)
					if pred == 1 {
						switch {
						case x > 0:
							v += want[i][y0+y][x0+x-1]
						case y > 0:
							v += want[i][y0+y-1][x0+x]
						}
					}
					want[i][y0+y][x0+x] = v
				}
			}
		}
		rt.Merge(false)
		if len(bits) > 0 {
			sec[2+nlf+g] = append(gSection(bits), 0, 0, 0, 0)
		}
	}
	gSections(f, sec)
	f.lfGroups = make([]*LFGroup, nlf)
	rt.Assert(f.decodePasses(nil) == nil, "the passes of a frame without HF data need no data")
	rt.Merge(true)
	err := f.decodePassGroupsConcurrent()
	rt.Merge(false)
	rt.Assert(err == nil, "complete groups are decoded")
	if err != nil {
		return
	}
	got := f.LfGlobal.globalModular.getChannels()
	for i, c := range chans {
		if c.hs >= 3 && c.vs >= 3 {
			continue
		}
		for y := 0; y < c.h; y++ {
			for x := 0; x < c.w; x++ {
				rt.Assert(got[i].buffer[y][x] == want[i][y][x], "each sample comes from its place in the group that covers it")
			}
		}
	}
	rt.Reach("pass groups")
}

// VH_G01_Passes: channels are decoded in the pass that their subsampling selects.
func VH_G01_Passes() {
	dim := 8
	w, h := 11, 3
	shifts := [][2]int{{2, 2}, {1, 1}, {0, 0}, {1, 2}, {0, 2}}
	var chans []gCh
	for _, q := range shifts {
		chans = append(chans, gCh{gCeil(w, q[0]), gCeil(h, q[1]), q[0], q[1]})
	}
	f := gFrame(w, h, dim, 2, chans)
	// downsampling factors are announced for some of the passes
	type cfg struct {
		passes   int
		ds, last []uint32
		pass     [3]int // pass of the channels of shift 0, 1, 2
	}
	cfgs := []cfg{
		{1, []uint32{1}, []uint32{0}, [3]int{0, 0, 0}},
		{2, []uint32{2, 1}, []uint32{0, 1}, [3]int{1, 0, 0}},
		{2, []uint32{4, 1}, []uint32{0, 1}, [3]int{1, 1, 0}},
		{3, []uint32{4, 2, 1}, []uint32{0, 1, 2}, [3]int{2, 1, 0}},
		{3, []uint32{2, 1}, []uint32{1, 2}, [3]int{2, 1, 1}},
		{2, []uint32{1}, []uint32{1}, [3]int{1, 1, 1}},
	}
	k := cfgs[rt.Concrete(rt.Int(0, len(cfgs)-1))]
	f.Header.passes.numPasses = uint32(k.passes)
	f.Header.passes.lastPass = k.last
	f.Header.passes.downSample = k.ds
	ng, nlf := int(f.numGroups), int(f.numLFGroups)
	rt.Assert(ng == 2 && nlf == 1, "group counts")
	if !gTree(f, 0, 18+3*nlf, ng*k.passes) {
		return
	}
	sec := make([][]byte, 2+nlf+ng*k.passes)
	want := make([][][]int32, len(chans))
	for i, c := range chans {
		want[i] = util.MakeMatrix2D[int32](c.h, c.w)
	}
	rt.Merge(true)
	for p := 0; p < k.passes; p++ {
		for g := 0; g < ng; g++ {
			var bits []byte
			for i, c := range chans {
				m := c.hs
				if c.vs < m {
					m = c.vs
				}
				if k.pass[m] != p {
					continue
				}
				y0, x0, ph, pw := gPart(c, 0, g, dim)
				d := rt.Bytes(ph * pw)
				bits = append(bits, d...)
				for y := 0; y < ph; y++ {
					for x := 0; x < pw; x++ {
						want[i][y0+y][x0+x] = gSample(uint32(d[y*pw+x])) + int32(8*(p*ng+g))
					}
				}
			}
			if len(bits) > 0 {
				sec[2+nlf+p*ng+g] = append(gSection(bits), 0, 0, 0, 0)
			}
		}
	}
	rt.Merge(false)
	gSections(f, sec)
	f.lfGroups = make([]*LFGroup, nlf)
	rt.Assert(f.decodePasses(nil) == nil, "the passes of a frame without HF data need no data")
	rt.Merge(true)
	err := f.decodePassGroupsConcurrent()
	rt.Merge(false)
	rt.Assert(err == nil, "complete groups are decoded")
	if err != nil {
		return
	}
	got := f.LfGlobal.globalModular.getChannels()
	for i, c := range chans {
		for y := 0; y < c.h; y++ {
			for x := 0; x < c.w; x++ {
				rt.Assert(len(got[i].buffer) > y && got[i].buffer[y][x] == want[i][y][x], "each channel is decoded in the pass of its shift")
			}
		}
	}
	rt.Reach("passes")
}

// VH_G01_LFGroups: channels that are subsampled by eight or more are decoded with the LF groups.
func VH_G01_LFGroups() {
	dim := 2 // LF groups of 16 x 16
	shapes := []struct{ w, h int }{{17, 9}, {9, 33}, {40, 17}}
	s := shapes[rt.Concrete(rt.Int(0, len(shapes)-1))]
	sets := [][][2]int{{{3, 3}}, {{3, 3}, {0, 0}, {3, 4}}, {{4, 3}, {3, 2}, {3, 3}}}
	set := sets[rt.Concrete(rt.Int(0, len(sets)-1))]
	var chans []gCh
	for _, q := range set {
		chans = append(chans, gCh{gCeil(s.w, q[0]), gCeil(s.h, q[1]), q[0], q[1]})
	}
	f := gFrame(s.w, s.h, dim, 2, chans)
	nlf := int(f.numLFGroups)
	if !gTree(f, 0, 1+nlf, nlf) {
		return
	}
	sec := make([][]byte, 2+nlf)
	want := make([][][]int32, len(chans))
	for i, c := range chans {
		want[i] = util.MakeMatrix2D[int32](c.h, c.w)
	}
	rt.Merge(true)
	for g := 0; g < nlf; g++ {
		gy, gx := g/int(f.lfGroupRowStride), g%int(f.lfGroupRowStride)
		var bits []byte
		for i, c := range chans {
			if c.hs < 3 || c.vs < 3 {
				continue
			}
			y0, x0, h, w := gPart(c, gy, gx, 8*dim)
			d := rt.Bytes(h * w)
			bits = append(bits, d...)
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					want[i][y0+y][x0+x] = gSample(uint32(d[y*w+x])) + int32(8*g)
				}
			}
		}
		sec[1+g] = append(gSection(bits), 0, 0, 0, 0)
	}
	rt.Merge(false)
	gSections(f, sec)
	rt.Merge(true)
	err := f.decodeLFGroups(nil)
	rt.Merge(false)
	rt.Assert(err == nil, "complete LF groups are decoded")
	if err != nil {
		return
	}
	got := f.LfGlobal.globalModular.getChannels()
	for i, c := range chans {
		if c.hs < 3 || c.vs < 3 {
			continue
		}
		for y := 0; y < c.h; y++ {
			for x := 0; x < c.w; x++ {
				rt.Assert(got[i].buffer[y][x] == want[i][y][x], "each LF sample comes from its place in the LF group that covers it")
			}
		}
	}
	rt.Reach("LF groups")
}

// VH_G01_Counts: numbers of groups that follow from the size of the frame.
func VH_G01_Counts() {
	var s mBits
	modular := rt.Concrete(rt.Int(0, 1))
	shift := 1
	s.put(0, 1) // not all default
	s.put(0, 2) // regular frame
	s.put(uint64(modular), 1)
	s.put(0, 2) // no flags
	s.put(0, 1) // no YCbCr
	s.put(0, 2) // no upsampling
	if modular == 1 {
		shift = rt.Concrete(rt.Int(0, 3))
		s.put(uint64(shift), 2)
	}
	s.put(0, 2)  // one pass
	s.put(0, 1)  // no crop
	s.put(0, 2)  // replaces
	s.put(1, 1)  // last
	s.put(0, 2)  // no name
	s.put(1, 1)  // default filters
	s.put(0, 2)  // no extensions
	s.put(0, 30) // more than enough
	dim := uint32(128) << uint(shift)
	w, h := rt.U32(), rt.U32()
	// within the limits of level 10: 2^28 samples to a side, 2^40 altogether.
	side := []uint32{1 << 12, 1 << 20, 1 << 28}[rt.Concrete(rt.Int(0, 2))]
	rt.Assume(w >= 1 && w <= side && h >= 1 && h <= uint32(1<<40/uint64(side)))
	f := &Frame{reader: jxlio.NewBitStreamReader(bytes.NewReader(s.bytes()))}
	f.GlobalMetadata = &bundle.ImageHeader{Size: util.Dimension{Width: w, Height: h}, BitDepth: &bundle.BitDepthHeader{BitsPerSample: 8},
		ColourEncoding: nil}
	rt.Merge(true)
	_, err := f.ReadFrameHeader()
	rt.Merge(false)
	rt.Assert(err == nil, "frame headers of any size are read")
	if err != nil {
		return
	}
	cd := func(a, b uint32) uint32 { return (a-1)/b + 1 }
	rt.Assert(f.Header.groupDim == dim, "group dimension")
	rt.Assert(f.groupRowStride == cd(w, dim), "groups per row")
	rt.Assert(f.numGroups == cd(w, dim)*cd(h, dim), "number of groups")
	rt.Assert(f.lfGroupRowStride == cd(w, 8*dim), "LF groups per row")
	rt.Assert(f.numLFGroups == cd(w, 8*dim)*cd(h, 8*dim), "number of LF groups")
	rt.Reach("counts")
}

// VH_G01_Padded: the samples that are decoded cover the frame, and no more than its last block or subsampled sample needs.
func VH_G01_Padded() {
	shifts := [][2][]int32{{{0, 0, 0}, {0, 0, 0}}, {{1, 0, 1}, {0, 0, 0}}, {{0, 0, 0}, {1, 0, 1}}, {{0, 1, 0}, {0, 1, 1}}, {{1, 1, 0}, {0, 0, 1}}}
	k := rt.Concrete(rt.Int(0, len(shifts)-1))
	vardct := rt.Concrete(rt.Int(0, 1)) == 1
	w, h := rt.U32(), rt.U32()
	rt.Assume(w >= 1 && w <= 1<<28 && h >= 1 && h <= 1<<28)
	f := &Frame{Header: &FrameHeader{Encoding: MODULAR, jpegUpsamplingX: shifts[k][0], jpegUpsamplingY: shifts[k][1],
		Bounds: &util.Rectangle{Size: util.Dimension{Width: w, Height: h}}}}
	ux, uy := uint32(1), uint32(1)
	if k == 1 || k >= 3 {
		ux = 2
	}
	if k >= 2 {
		uy = 2
	}
	if vardct {
		f.Header.Encoding = VARDCT
		ux, uy = 8*ux, 8*uy
	}
	d, err := f.GetPaddedFrameSize()
	rt.Assert(err == nil, "frames have a padded size")
	rt.Assert(d.Width%ux == 0 && d.Width >= w && d.Width-w < ux, "the padded width")
	rt.Assert(d.Height%uy == 0 && d.Height >= h && d.Height-h < uy, "the padded height")
	rt.Assert(f.Header.Bounds.Size.Width == w && f.Header.Bounds.Size.Height == h, "the frame keeps its size")
	rt.Reach("padded")
}

// VH_G01_Geometry: location and size of groups.
func VH_G01_Geometry() {
	vardct := rt.Bool()
	f := &Frame{Header: &FrameHeader{Encoding: MODULAR, Bounds: &util.Rectangle{}}}
	shift := 1
	if vardct {
		f.Header.Encoding = VARDCT
	} else {
		shift = rt.Concrete(rt.Int(0, 3))
	}
	sx, sy := int32(rt.Concrete(rt.Int(0, 1))), int32(rt.Concrete(rt.Int(0, 1)))
	f.Header.jpegUpsamplingX = []int32{sx, 0, sx}
	f.Header.jpegUpsamplingY = []int32{0, sy, 0}
	dim := uint32(128) << uint(shift)
	f.Header.groupDim, f.Header.lfGroupDim = dim, 8*dim
	// a frame of cols x rows groups; the last ones need not be complete
	maxC := 9
	cols, rows := uint32(rt.Concrete(rt.Int(1, maxC))), uint32(rt.Concrete(rt.Int(1, 10)))
	if !rt.Thorough() {
		rt.Assume((cols == 1 || cols == 2 || cols > 8) && (rows == 1 || rows > 7))
	}
	w, h := rt.U32(), rt.U32()
	rt.Assume(w > (cols-1)*dim && w <= cols*dim && h > (rows-1)*dim && h <= rows*dim)
	f.Header.Bounds.Size = util.Dimension{Width: w, Height: h}
	f.groupRowStride, f.numGroups = cols, cols*rows
	lc, lr := (cols+7)/8, (rows+7)/8
	f.lfGroupRowStride, f.numLFGroups = lc, lc*lr
	rt.Merge(true)
	pw, ph := w, h
	if vardct {
		bx, by := uint32(8)<<uint(sx), uint32(8)<<uint(sy)
		pw, ph = (w+bx-1)/bx*bx, (h+by-1)/by*by
	} else {
		bx, by := uint32(1)<<uint(sx), uint32(1)<<uint(sy)
		pw, ph = (w+bx-1)/bx*bx, (h+by-1)/by*by
	}
	p, err := f.GetPaddedFrameSize()
	rt.Merge(false)
	rt.Assert(err == nil && p.Width == pw && p.Height == ph, "frames are padded to whole blocks")
	f.lfGroups = make([]*LFGroup, lc*lr)
	for i := range f.lfGroups {
		f.lfGroups[i] = &LFGroup{lfGroupID: int32(i)}
	}
	min := func(a, b uint32) uint32 {
		if a < b {
			return a
		}
		return b
	}
	for _, g := range []uint32{0, cols - 1, cols * rows / 2, cols * (rows - 1), cols*rows - 1} {
		y, x := g/cols, g%cols
		loc := f.getGroupLocation(int32(g))
		rt.Assert(loc.Y == int32(y) && loc.X == int32(x), "groups are numbered row by row")
		rt.Merge(true)
		sz, err := f.getGroupSize(int32(g))
		ww, wh := min(dim, pw-x*dim), min(dim, ph-y*dim)
		rt.Merge(false)
		rt.Assert(err == nil && sz.Width == ww && sz.Height == wh, "a group ends with the padded frame")
		lg := f.getLFGroupForGroup(int32(g))
		rt.Assert(lg.lfGroupID == int32(y/8*lc+x/8), "a group belongs to the LF group that covers it")
		in := f.groupPosInLFGroup(lg.lfGroupID, g)
		rt.Assert(in.Y == int32(y%8) && in.X == int32(x%8), "position of a group in its LF group")
	}
	for g := uint32(0); g < lc*lr; g++ {
		y, x := g/lc, g%lc
		loc := f.getLFGroupLocation(int32(g))
		rt.Assert(loc.Y == int32(y) && loc.X == int32(x), "LF groups are numbered row by row")
		rt.Merge(true)
		sz, err := f.getLFGroupSize(int32(g))
		ww, wh := min(8*dim, pw-x*8*dim), min(8*dim, ph-y*8*dim)
		rt.Merge(false)
		rt.Assert(err == nil && sz.Width == ww && sz.Height == wh, "an LF group ends with the padded frame")
	}
	rt.Reach("geometry")
}
