package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
)

// gCh is a channel of a frame that is coded in groups.
type gCh struct{ w, h, hs, vs int }

// gFrame is a modular frame whose groups hold the given channels.
func gFrame(w, h, dim, workers int, chans []gCh) *Frame {
	f := &Frame{}
	f.Header = &FrameHeader{Encoding: MODULAR, groupDim: uint32(dim), lfGroupDim: uint32(8 * dim), Upsampling: 1,
		jpegUpsamplingX: []int32{0, 0, 0}, jpegUpsamplingY: []int32{0, 0, 0}}
	f.Header.Bounds = &util.Rectangle{Size: util.Dimension{Width: uint32(w), Height: uint32(h)}}
	f.Header.passes = &PassesInfo{numPasses: 1}
	f.GlobalMetadata = &bundle.ImageHeader{BitDepth: &bundle.BitDepthHeader{BitsPerSample: 8}}
	f.options = &options.JXLOptions{MaxGoroutines: workers}
	f.groupRowStride = uint32((w + dim - 1) / dim)
	f.lfGroupRowStride = uint32((w + 8*dim - 1) / (8 * dim))
	f.numGroups = f.groupRowStride * uint32((h+dim-1)/dim)
	f.numLFGroups = f.lfGroupRowStride * uint32((h+8*dim-1)/(8*dim))
	ms := &ModularStream{frame: f}
	for _, c := range chans {
		ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(c.h), int32(c.w), int32(c.vs), int32(c.hs), false))
	}
	f.LfGlobal = &LFGlobal{globalModular: ms}
	f.Buffer = make([]image.ImageBuffer, 3)
	return f
}

// gCode is the description of a code that always delivers the token 9, which is followed by eight bits.
func gCode(s *mBits, contexts int) {
	s.put(0, 1) // no LZ77
	if contexts > 1 {
		s.put(1, 1) // one cluster
		s.put(0, 2)
	}
	s.put(1, 1) // prefix codes
	s.put(0, 4) // tokens above 0 are followed by token-1 bits
	s.put(1, 1) // alphabet of 16 symbols
	s.put(3, 4)
	s.put(7, 3)
	s.put(1, 2) // one listed symbol
	s.put(0, 2)
	s.put(9, 4)
}

// gSample is the value of eight bits of such a code.
func gSample(v uint32) int32 {
	return mSigned(256 + v&255)
}

// gTree gives the streams of the frame a tree with one leaf, or one whose leaves add
// 8 times the stream's index, counted from base, to each sample.
func gTree(f *Frame, pred int32, base, streams int) bool {
	// breadth first: a node, the leaf of the largest index left, and so on
	var order []mNode
	for i := streams - 1; i > 0; i-- {
		l := mLeaf(pred)
		l.off = mPack(int32(8 * i))
		order = append(order, mNode{prop: 1, value: mPack(int32(base + i - 1))}, l)
	}
	order = append(order, mLeaf(pred))
	t, err := mTree(order)
	if err != nil {
		return false
	}
	var s mBits
	gCode(&s, streams)
	st, err := entropy.NewEntropyStreamWithReaderAndNumDists(jxlio.NewBitStreamReader(bytes.NewReader(s.bytes())), streams, entropy.ReadClusterMap)
	if err != nil {
		return false
	}
	t.stream = st
	f.globalTree = t
	return true
}

// gSection is the data of a group: header, then eight bits per sample.
func gSection(samples []byte) []byte {
	var s mBits
	s.put(1, 1) // the frame's tree
	s.put(1, 1) // default parameters of the weighted predictor
	s.put(0, 2) // no transforms
	for _, v := range samples {
		s.put(uint64(v), 8)
	}
	return s.bytes()
}

// gSections makes the sections of the frame: number i holds the given data.
func gSections(f *Frame, data [][]byte) {
	f.tocLengths = make([]uint32, len(data))
	f.bitreaders = make([]jxlio.BitReader, len(data))
	for i := range data {
		f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(data[i]))
	}
}

// gPart is the part of a channel that belongs to a group.
func gPart(c gCh, gy, gx, dim int) (y0, x0, h, w int) {
	gh, gw := dim>>uint(c.vs), dim>>uint(c.hs)
	y0, x0 = gy*gh, gx*gw
	h, w = c.h-y0, c.w-x0
	if h > gh {
		h = gh
	}
	if w > gw {
		w = gw
	}
	if h < 0 || w < 0 {
		h, w = 0, 0
	}
	return
}

func gCeil(v, s int) int { return (v + 1<<uint(s) - 1) >> uint(s) }
