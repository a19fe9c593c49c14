package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

func gExplore(preempt int) {
	rt.Set("sched", 1)
	rt.Set("preempt", preempt)
	rt.Set("race", 1)
	rt.Merge(true)
}

// bound: every interleaving of the synchronisation operations (channels, mutexes, wait groups, pools) with at most 2 (thorough 3) preemptions, of 2 or 3 groups decoded by 2 workers; data races are excluded by vector clocks on every memory access
// bound: group data symbolic, 8 bits per sample; groups of 4x4 samples; row workers: 1..5 workers on 1..6 rows
// outside: more workers than 5, preemption between synchronisation operations (equivalent by the absence of races), VarDCT groups
// VH_G02_PassGroups: the decoded samples do not depend on the schedule of the workers.
func VH_G02_PassGroups() {
	dim := 4
	w, h := 6, 2
	chans := []gCh{{w, h, 0, 0}}
	f := gFrame(w, h, dim, 2, chans)
	f.Header.passes.lastPass = []uint32{0}
	f.Header.passes.downSample = []uint32{1}
	ng, nlf := int(f.numGroups), int(f.numLFGroups)
	if !gTree(f, 0, 18+3*nlf, ng) {
		return
	}
	bad := rt.Concrete(rt.Int(-1, ng-1))
	sec := make([][]byte, 2+nlf+ng)
	want := util.MakeMatrix2D[int32](h, w)
	for g := 0; g < ng; g++ {
		y0, x0, ph, pw := gPart(chans[0], g/int(f.groupRowStride), g%int(f.groupRowStride), dim)
		rt.Merge(true)
		d := rt.Bytes(ph * pw)
		for y := 0; y < ph; y++ {
			for x := 0; x < pw; x++ {
				want[y0+y][x0+x] = gSample(uint32(d[y*pw+x])) + int32(8*g)
			}
		}
		sec[2+nlf+g] = append(gSection(d), 0, 0, 0, 0)
		rt.Merge(false)
		if g == bad {
			sec[2+nlf+g] = sec[2+nlf+g][:1+rt.Concrete(rt.Int(0, 1))*(ph*pw-2)]
		}
	}
	gSections(f, sec)
	f.lfGroups = make([]*LFGroup, nlf)
	rt.Assert(f.decodePasses(nil) == nil, "passes")
	gExplore(gPreempt())
	err := f.decodePassGroupsConcurrent()
	rt.Merge(false)
	rt.Set("sched", 0)
	rt.Assert((err == nil) == (bad < 0), "a group that cannot be decoded is reported, whatever the schedule")
	if err != nil {
		rt.Reach("failed")
		return
	}
	got := f.LfGlobal.globalModular.getChannels()[0].buffer
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			rt.Assert(got[y][x] == want[y][x], "the samples do not depend on the schedule")
		}
	}
	rt.Reach("decoded")
}

func gPreempt() int {
	if rt.Thorough() {
		return 3
	}
	return 2
}

// VH_G02_LFGroups: the same for LF groups.
func VH_G02_LFGroups() {
	w, h := 20, 9
	chans := []gCh{{3, 2, 3, 3}}
	f := gFrame(w, h, 2, rt.Concrete(rt.Int(1, 2)), chans)
	nlf := int(f.numLFGroups)
	if !gTree(f, 0, 1+nlf, nlf) {
		return
	}
	bad := rt.Concrete(rt.Int(-1, nlf-1))
	sec := make([][]byte, 2+nlf)
	want := util.MakeMatrix2D[int32](2, 3)
	for g := 0; g < nlf; g++ {
		y0, x0, ph, pw := gPart(chans[0], g/int(f.lfGroupRowStride), g%int(f.lfGroupRowStride), 16)
		rt.Merge(true)
		d := rt.Bytes(ph * pw)
		for y := 0; y < ph; y++ {
			for x := 0; x < pw; x++ {
				want[y0+y][x0+x] = gSample(uint32(d[y*pw+x])) + int32(8*g)
			}
		}
		sec[1+g] = append(gSection(d), 0, 0, 0, 0)
		rt.Merge(false)
		if g == bad {
			sec[1+g] = sec[1+g][:1]
		}
	}
	gSections(f, sec)
	gExplore(gPreempt())
	err := f.decodeLFGroups(nil)
	rt.Merge(false)
	rt.Set("sched", 0)
	rt.Assert((err == nil) == (bad < 0), "an LF group that cannot be decoded is reported, whatever the schedule")
	if err != nil {
		rt.Reach("failed")
		return
	}
	got := f.LfGlobal.globalModular.getChannels()[0].buffer
	for y := 0; y < 2; y++ {
		for x := 0; x < 3; x++ {
			rt.Assert(got[y][x] == want[y][x], "the LF samples do not depend on the schedule")
		}
	}
	rt.Reach("decoded")
}

// gImage is a grey frame of floats.
func gImage(w, h, workers int, v [][]float32) *Frame {
	f := gFrame(w, h, 256, workers, nil)
	f.GlobalMetadata.ColourEncoding = &colour.ColourEncodingBundle{ColourEncoding: colour.CE_GRAY}
	b := util.MakeMatrix2D[float32](h, w)
	for y := range b {
		copy(b[y], v[y])
	}
	f.Buffer = []image.ImageBuffer{*image.NewImageBufferFromFloats(b)}
	return f
}

// gRows compares a filter run by some workers with the same run by one.
func gRows(run func(f *Frame) ([][]float32, error)) {
	h := rt.Concrete(rt.Int(1, 6))
	workers := rt.Concrete(rt.Int(0, 5))
	w := 2
	if !rt.Thorough() {
		rt.Assume(h != 2 && h != 4 && workers != 1 && workers != 4)
	}
	v := util.MakeMatrix2D[float32](h, w)
	for y := range v {
		for x := range v[y] {
			v[y][x] = float32((y*7+x*3)%5) * 0.25
		}
	}
	one, err := run(gImage(w, h, 1, v))
	if err != nil {
		rt.Assert(false, "one worker filters any frame")
		return
	}
	gExplore(1)
	rt.Set("delay", 1)
	got, err := run(gImage(w, h, workers, v))
	rt.Merge(false)
	rt.Set("sched", 0)
	rt.Assert(err == nil, "any number of workers filters any frame")
	if err != nil {
		return
	}
	rt.Assert(len(got) == len(one), "size of the result")
	for y := range one {
		rt.Assert(len(got[y]) == len(one[y]), "size of the result")
		for x := range one[y] {
			rt.Assert(got[y][x] == one[y][x], "the result does not depend on the number of workers or their schedule")
		}
	}
	rt.Reach("rows")
}

// VH_G02_Upsampling: rows of the upsampling are divided among workers.
func VH_G02_Upsampling() {
	gRows(func(f *Frame) ([][]float32, error) {
		f.Header.Upsampling = 2
		f.GlobalMetadata.Up2Weights = bundle.DEFAULT_UP2
		f.GlobalMetadata.Up4Weights = bundle.DEFAULT_UP4
		f.GlobalMetadata.Up8Weights = bundle.DEFAULT_UP8
		b, err := f.performUpsampling(f.Buffer[0], 0)
		if err != nil {
			return nil, err
		}
		return b.FloatBuffer, nil
	})
}

// VH_G02_Gab: rows of the smoothing filter are divided among workers.
func VH_G02_Gab() {
	gRows(func(f *Frame) ([][]float32, error) {
		rf := NewRestorationFilter()
		f.Header.restorationFilter = rf
		err := f.performGabConvolution()
		return f.Buffer[0].FloatBuffer, err
	})
}

// VH_G02_EPF: rows of the edge-preserving filter are divided among workers.
func VH_G02_EPF() {
	it := uint32(rt.Concrete(rt.Int(1, 3)))
	gRows(func(f *Frame) ([][]float32, error) {
		rf := NewRestorationFilter()
		rf.epfIterations = it
		f.Header.restorationFilter = rf
		err := f.performEdgePreservingFilter()
		return f.Buffer[0].FloatBuffer, err
	})
}

// VH_G02_Options: the options decide the number of workers only.
func VH_G02_Options() {
	o := options.NewJXLOptions(nil)
	rt.Assert(o.MaxGoroutines >= 1, "there is at least one worker")
	rt.Reach("options")
}

// VH_G02_VarDCT: groups of DCT blocks that are decoded and transformed by several workers.
func VH_G02_VarDCT() {
	run := func(workers int) ([][][]float32, error) {
		// one block in each of two groups
		f := gFrame(264, 8, 256, workers, nil)
		f.Header.Encoding = VARDCT
		f.Header.xqmScale, f.Header.bqmScale = 2, 2
		f.Header.passes.lastPass = []uint32{0}
		f.Header.passes.downSample = []uint32{1}
		f.Header.passes.shift = []uint32{0}
		f.GlobalMetadata.XybEncoded = true
		f.GlobalMetadata.OpsinInverseMatrix = &colour.OpsinInverseMatrix{QuantBias: []float32{0.5, 0.25, 0.75}, QuantBiasNumerator: 0.125}
		f.LfGlobal.globalScale = 65536
		f.LfGlobal.lfChanCorr = &LFChannelCorrelation{colorFactor: 84}
		ctx := &HFBlockContext{numClusters: 1, numLFContexts: 1, clusterMap: make([]int, 39)}
		f.LfGlobal.hfBlockCtx = ctx
		f.hfGlobal = &HFGlobal{numHFPresets: 1, weights: util.MakeMatrix4D[float32](17, 3, 8, 8)}
		for c := 0; c < 3; c++ {
			for i := 0; i < 64; i++ {
				f.hfGlobal.weights[0][c][i/8][i%8] = 0.5
			}
		}
		lf := &LFGroup{frame: f, size: util.Dimension{Width: 33, Height: 1}}
		lf.hfMetadata = &HFMetadata{
			dctSelect:      util.MakeMatrix2D[*TransformType](1, 33),
			hfMultiplier:   util.MakeMatrix2D[int32](1, 33),
			hfStreamBuffer: [][][]int32{util.MakeMatrix2D[int32](1, 5), util.MakeMatrix2D[int32](1, 5)},
		}
		lf.lfCoeff = &LFCoefficients{dequantLFCoeff: util.MakeMatrix3D[float32](3, 1, 33), lfIndex: util.MakeMatrix2D[int32](1, 33)}
		for _, x := range []int32{0, 32} {
			lf.hfMetadata.dctSelect[0][x] = &allDCT[0]
			lf.hfMetadata.hfMultiplier[0][x] = 2
			lf.hfMetadata.blockList = append(lf.hfMetadata.blockList, util.Point{X: x})
			for c := 0; c < 3; c++ {
				lf.lfCoeff.dequantLFCoeff[c][0][x] = float32(x)/16 + float32(c)
			}
		}
		f.lfGroups = []*LFGroup{lf}
		// two symbols of one bit each
		var s mBits
		s.put(0, 1)
		s.put(1, 1)
		s.put(0, 2)
		s.put(1, 1)
		s.put(15, 4)
		s.put(1, 1) // alphabet of two symbols
		s.put(0, 4)
		s.put(1, 2)
		s.put(1, 2)
		s.put(0, 1)
		s.put(1, 1)
		st, err := entropy.NewEntropyStreamWithReaderAndNumDists(jxlio.NewBitStreamReader(bytes.NewReader(s.bytes())), 495, entropy.ReadClusterMap)
		if err != nil {
			return nil, err
		}
		hp := &HFPass{contextStream: st, order: util.MakeMatrix3D[util.Point](13, 3, 0)}
		for c := 0; c < 3; c++ {
			for i := 0; i < 64; i++ {
				hp.order[0][c] = append(hp.order[0][c], util.Point{Y: int32(i / 8), X: int32(i % 8)})
			}
		}
		f.passes = []Pass{{hfPass: hp}}
		sec := make([][]byte, 5)
		for g := 0; g < 2; g++ {
			// for each channel one coefficient at a different place
			var b mBits
			for c := 0; c < 3; c++ {
				b.put(1, 1)
				b.put(0, 2*c+g)
				b.put(1, 1)
			}
			b.put(0, 64)
			sec[3+g] = b.bytes()
		}
		gSections(f, sec)
		for c := range f.Buffer {
			f.Buffer[c] = *image.NewImageBufferFromFloats(util.MakeMatrix2D[float32](8, 264))
		}
		if err := f.decodePassGroupsConcurrent(); err != nil {
			return nil, err
		}
		return [][][]float32{f.Buffer[0].FloatBuffer, f.Buffer[1].FloatBuffer, f.Buffer[2].FloatBuffer}, nil
	}
	one, err := run(1)
	rt.Assert(err == nil, "groups of blocks are decoded")
	if err != nil {
		return
	}
	gExplore(1)
	rt.Set("delay", 1)
	got, err := run(2)
	rt.Merge(false)
	rt.Set("sched", 0)
	rt.Assert(err == nil, "groups of blocks are decoded by several workers")
	if err != nil {
		return
	}
	for c := range one {
		for y := 0; y < 8; y++ {
			for _, x := range []int{0, 3, 7, 256, 257, 263} {
				rt.Assert(got[c][y][x] == one[c][y][x], "blocks do not depend on the number of workers or their schedule")
			}
		}
	}
	rt.Assert(one[0][0][0] != one[0][1][0] && one[1][0][256] != one[1][1][256], "both blocks hold detail")
	rt.Reach("VarDCT")
}
