package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: channels of width 0..3 and height 0..3, all residuals below 2^12 (quick: up to 6 samples, 4 with the gradient predictor), multipliers 1..6, any offset, predictors 0, 1, 2, 5, 12
// bound: streams of 1..4 channels of sizes 0..3 (partially decoded ones with group size 2), 0..2 meta channels, any stream index; all initial parameters of streams without transforms
// outside: values that overflow 32 bits

// VH_M04_Samples: every sample is prediction plus residual times multiplier plus offset.
func VH_M04_Samples() {
	w := rt.Concrete(rt.Int(0, 3))
	h := rt.Concrete(rt.Int(0, 3))
	preds := []int{0, 1, 2, 5, 12}
	k := preds[rt.Concrete(rt.Int(0, len(preds)-1))]
	bits := rt.Concrete(rt.Int(0, 2))
	log := rt.Concrete(rt.Int(0, 1))
	rt.Assume(rt.Thorough() || w*h <= 6 && (k != 5 || w*h <= 4))
	rt.Merge(true)
	off := rt.U32()
	rt.Assume(off < 1<<16)
	var res []uint32
	v := make([]int32, w*h)
	for i := range v {
		u := rt.U32()
		rt.Assume(u < 1<<13)
		res = append(res, u)
		v[i] = mSigned(u)*int32((bits+1)<<uint(log)) + mSigned(off) + mPredict(k, mHoodAt(v, w, i%w, i/w))
	}
	rt.Merge(false)
	tree, err := mTree([]mNode{{prop: -1, pred: int32(k), off: off, mulBits: int32(bits), mulLog: int32(log)}})
	rt.Assert(err == nil, "the tree is accepted")
	n := 0
	s := &symStream{}
	mult := int32(rt.Int(0, 5))
	s.f = func(c int, m int32) (int32, error) {
		rt.Assert(n < len(res), "one symbol per sample")
		rt.Assert(m == mult, "the distance multiplier is passed on")
		n++
		return int32(res[n-1]), nil
	}
	c := mChannel(w, h)
	rt.Merge(true)
	err = c.decode(nil, s, nil, tree, &ModularStream{channels: []*ModularChannel{c}}, 0, 0, mult)
	rt.Merge(false)
	rt.Assert(err == nil && n == len(res), "all samples are decoded")
	for i := range v {
		rt.Assert(c.buffer[i/w][i%w] == v[i], "a sample is prediction plus residual times multiplier plus offset")
	}
	rt.Reach("decoded")
}

// VH_M04_Stream: which channels of a stream are decoded, in what order and with which parameters.
func VH_M04_Stream() {
	n := rt.Concrete(rt.Int(1, 4))
	meta := rt.Concrete(rt.Int(0, 2))
	rt.Assume(meta <= n)
	partial := rt.Bool()
	si := rt.Int(0, 1<<20)
	fr := symFrame(8)
	fr.header.groupDim = 2
	ms := &ModularStream{frame: fr, streamIndex: si, nbMetaChannels: meta}
	// value of the residual tells which channel and position it is for
	type pos struct{ c, x, y int }
	var want []pos
	max, all := 0, 0
	stop := false
	for i := 0; i < n; i++ {
		w := rt.Concrete(rt.Int(0, 3))
		h := 2
		if i&1 == 1 {
			h = rt.Concrete(rt.Int(0, 3))
		}
		rt.Assume(n < 3 || w != 2 && h != 1 || rt.Thorough())
		ms.channels = append(ms.channels, mChannel(w, h))
		if w > 0 && h > 0 && w > all {
			all = w
		}
		if w == 0 || h == 0 || stop {
			continue
		}
		if partial && i >= meta && (w > 2 || h > 2) {
			stop = true
			continue
		}
		if w > max {
			max = w
		}
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				want = append(want, pos{i, x, y})
			}
		}
	}
	ms.distMultiplier = int32(all)
	// the tree tells channels, rows and the stream index apart
	t := uint32(rt.Int(0, 1<<20))
	rt.Assume(t&1 == 0)
	tree, err := mTree([]mNode{
		{prop: 1, value: t},
		{prop: 0, value: mPack(0)}, {prop: 0, value: mPack(1)},
		mLeaf(0), mLeaf(0), mLeaf(0), mLeaf(0)})
	rt.Assert(err == nil, "the tree is accepted")
	ms.tree = tree
	above := si > int(t/2)
	k := 0
	s := &symStream{bad: rt.Bool()}
	s.f = func(c int, m int32) (int32, error) {
		rt.Assert(k < len(want), "only samples of the stream's channels are decoded")
		ctx := 1
		if above {
			if want[k].c > 0 {
				ctx = 0
			}
		} else {
			ctx = 3
			if want[k].c > 1 {
				ctx = 2
			}
		}
		rt.Assert(c == ctx, "channel index and stream index select the leaf")
		rt.Assert(int(m) == max, "distances are relative to the widest channel decoded")
		k++
		return int32(2 * k), nil
	}
	ms.stream = s
	err = ms.decodeChannels(nil, partial)
	rt.Assert((err != nil) == s.bad, "exactly streams with a wrong final state are rejected")
	rt.Assert(s.valid > 0, "the final state is checked")
	rt.Assert(k == len(want), "every sample of the stream's channels is decoded")
	rt.Reach("decoded")
	for i, p := range want {
		rt.Assert(ms.channels[p.c].buffer[p.y][p.x] == int32(i+1), "samples are stored in raster order, channel by channel")
	}
	if !s.bad {
		b := ms.getDecodedBuffer()
		rt.Assert(len(b) == n, "all channels are returned")
		for i, p := range want {
			rt.Assert(b[p.c][p.y][p.x] == int32(i+1), "the decoded channels are returned in order")
		}
	}
}

// VH_M04_Header: channels and parameters of a stream without transforms.
func VH_M04_Header() {
	n := rt.Concrete(rt.Int(0, 3))
	ec := rt.Concrete(rt.Int(0, 3))
	rt.Assume(ec <= n)
	given := rt.Concrete(rt.Int(0, 1)) == 1
	fr := symFrame(8)
	const fw, fh = 21, 11
	up := rt.Concrete(rt.Int(0, 3))
	lf := uint32(0)
	if up == 0 && n > 1 {
		lf = uint32(rt.Concrete(rt.Int(0, 1)))
	}
	fr.header.LfLevel = lf
	fr.header.Upsampling = 1 << up
	fr.header.upsampledSize.Width, fr.header.upsampledSize.Height = fw, fh
	div := func(v, s int) uint32 { return uint32((v + 1<<uint(s) - 1) >> uint(s)) }
	fr.header.Bounds.Size.Width, fr.header.Bounds.Size.Height = div(fw, up+3*int(lf)), div(fh, up+3*int(lf))
	fr.header.jpegUpsamplingX, fr.header.jpegUpsamplingY = make([]int32, 3), make([]int32, 3)
	for i := 0; i < ec && i < 2 && !given; i++ {
		fr.header.jpegUpsamplingX[i] = int32(rt.Concrete(rt.Int(0, 1)))
		fr.header.jpegUpsamplingY[i] = int32(rt.Concrete(rt.Int(0, 1)))
	}
	var ecUp []int
	for i := ec; i < n; i++ {
		d := 0
		if !given {
			d = rt.Concrete(rt.Int(up, 3)) - up
		}
		ecUp = append(ecUp, up+d)
		fr.header.EcUpsampling = append(fr.header.EcUpsampling, 1<<uint(up+d))
		fr.meta.ExtraChannelInfo = append(fr.meta.ExtraChannelInfo, bundle.ExtraChannelInfo{DimShift: int32(rt.Int(0, 3))})
	}
	real, err := entropy.NewEntropyStreamWithReaderAndNumDists(jxlio.NewBitStreamReader(bytes.NewReader([]byte{0x10, 0, 0, 0, 0, 0, 0, 0, 0, 0})), 1, entropy.ReadClusterMap)
	_ = err
	fr.tree = &MATreeNode{stream: real, property: -1}
	b := rt.Bytes(9)
	b[0] |= 1 // the global tree is used
	ref := &rt.RefReader{D: b}
	ref.U(1)
	var want WPParams
	if ref.Bool() {
		want = WPParams{16, 10, 7, 7, 7, 0, 0, [4]int64{13, 12, 12, 12}}
	} else {
		want.param1, want.param2 = int(ref.U(5)), int(ref.U(5))
		want.param3a, want.param3b, want.param3c = int32(ref.U(5)), int32(ref.U(5)), int32(ref.U(5))
		want.param3d, want.param3e = int32(ref.U(5)), int32(ref.U(5))
		for i := range want.weight {
			want.weight[i] = int64(ref.U(4))
		}
	}
	rt.Assume(ref.U(2) == 0) // no transforms
	r := jxlio.NewBitStreamReader(bytes.NewReader(b))
	si := rt.Int(0, 1000)
	var st ModularStreamer
	if given {
		var cs []ModularChannel
		for i := 0; i < n; i++ {
			cs = append(cs, *NewModularChannelWithAllParams(int32(2+i), int32(1+i), 1, 2, false))
		}
		st, err = NewModularStreamWithStreamIndex(r, fr, si, cs)
	} else {
		st, err = NewModularStreamWithReader(r, fr, si, n, ec)
	}
	rt.Assert(err == nil, "the stream's header is accepted")
	if err != nil {
		return
	}
	ch := st.getChannels()
	rt.Assert(len(ch) == n, "a stream has the channels asked for")
	if n == 0 {
		rt.Assert(r.GetBitsCount() == 0, "a stream without channels takes no bits")
		return
	}
	rt.Assert(int(r.GetBitsCount()) == ref.P, "the header is read completely")
	ms := st.(*ModularStream)
	rt.Assert(*ms.wpParams == want && ms.streamIndex == si && ms.tree == fr.tree, "parameters of the stream")
	for i, c := range ch {
		if given {
			rt.Assert(c.size.Width == uint32(1+i) && c.size.Height == uint32(2+i) && c.vshift == 1 && c.hshift == 2, "given channels keep their sizes")
			continue
		}
		b := fr.header.Bounds.Size
		if i < ec {
			x, y := fr.header.jpegUpsamplingX[i], fr.header.jpegUpsamplingY[i]
			rt.Assert(c.hshift == x && c.vshift == y, "colour channels are subsampled as the frame header says")
			rt.Assert(c.size.Width == div(int(b.Width), int(x)) && c.size.Height == div(int(b.Height), int(y)), "colour channels have the size of the frame or half of it")
			continue
		}
		e := ecUp[i-ec]
		rt.Assert(c.hshift == int32(e-up) && c.vshift == int32(e-up), "extra channels are smaller than the frame by their own upsampling")
		rt.Assert(c.size.Width == div(int(div(fw, 3*int(lf))), e) && c.size.Height == div(int(div(fh, 3*int(lf))), e), "extra channels have the size of the image divided by their upsampling")
	}
	rt.Reach("read")
}
