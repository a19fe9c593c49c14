seed("g01-padded-height", "G01", [("frame/Frame.go", "	height = util.CeilDiv(height, uint32(factorY))\n", "	height = height / uint32(factorY)\n")],
 "frame", '''
package frame

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/util"
)

func TestZZDemo(t *testing.T) {
	f := &Frame{Header: &FrameHeader{Encoding: VARDCT, jpegUpsamplingX: []int32{0, 0, 0}, jpegUpsamplingY: []int32{1, 0, 1},
		Bounds: &util.Rectangle{Size: util.Dimension{Width: 20, Height: 20}}}}
	d, err := f.GetPaddedFrameSize()
	if err != nil || d.Width != 24 || d.Height != 32 {
		t.Fatal(d, err)
	}
}
''', "a vertically subsampled frame with an odd number of rows of blocks", "the last row of blocks of a vertically subsampled frame does not fit into the padded frame")
seed("f02-extra-factor", "F02", [("frame/Frame.go", "k = f.Header.EcUpsampling[c-colour]", "k = f.Header.EcUpsampling[0]")],
 "frame", '''
package frame

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
)

func TestZZDemo(t *testing.T) {
	f := &Frame{
		Header: &FrameHeader{Encoding: MODULAR, Upsampling: 1, EcUpsampling: []uint32{1, 2},
			Bounds: &util.Rectangle{Size: util.Dimension{Width: 2, Height: 2}}},
		GlobalMetadata: &bundle.ImageHeader{
			BitDepth:         &bundle.BitDepthHeader{BitsPerSample: 8},
			ColourEncoding:   &colour.ColourEncodingBundle{ColourEncoding: colour.CE_GRAY},
			ExtraChannelInfo: []bundle.ExtraChannelInfo{{BitDepth: bundle.BitDepthHeader{BitsPerSample: 8}}, {BitDepth: bundle.BitDepthHeader{BitsPerSample: 8}}},
			Up2Weights:       bundle.DEFAULT_UP2, Up4Weights: bundle.DEFAULT_UP4, Up8Weights: bundle.DEFAULT_UP8,
		},
		options: &options.JXLOptions{MaxGoroutines: 1},
	}
	small := image.NewImageBufferFromInts([][]int32{{51}})
	b, err := f.performUpsampling(*small, 2)
	if err != nil || b.Width != 2 || b.Height != 2 {
		t.Fatal(b, err)
	}
}
''', "two extra channels with different upsampling", "every extra channel is upsampled by the factor of the first one")
seed("f01-lf-group-row", "F01", [("frame/Frame.go", "			lfY := y >> 8\n			bY := y - (lfY << 8)\n", "			lfY := (y + 1) >> 8\n			bY := max(y-(lfY<<8), 0)\n")],
 "frame", '''
package frame

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/colour"
	"github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/util"
)

func TestZZDemo(t *testing.T) {
	const blocks = 257
	f := &Frame{options: &options.JXLOptions{MaxGoroutines: 1}}
	f.Header = &FrameHeader{Encoding: VARDCT, groupDim: 256, lfGroupDim: 2048, Upsampling: 1,
		jpegUpsamplingX: []int32{0, 0, 0}, jpegUpsamplingY: []int32{0, 0, 0},
		Bounds:            &util.Rectangle{Size: util.Dimension{Width: 8, Height: 8 * blocks}},
		restorationFilter: NewRestorationFilter()}
	f.Header.restorationFilter.epfIterations = 1
	f.GlobalMetadata = &bundle.ImageHeader{BitDepth: &bundle.BitDepthHeader{BitsPerSample: 8}, XybEncoded: true,
		ColourEncoding: &colour.ColourEncodingBundle{ColourEncoding: colour.CE_RGB}}
	f.LfGlobal = &LFGlobal{globalScale: 65536}
	f.numLFGroups, f.lfGroupRowStride, f.groupRowStride, f.numGroups = 2, 1, 1, 9
	for _, n := range []int{256, 1} {
		m := &HFMetadata{hfMultiplier: util.MakeMatrix2D[int32](n, 1), hfStreamBuffer: util.MakeMatrix3D[int32](4, n, 1)}
		for y := 0; y < n; y++ {
			m.hfMultiplier[y][0] = 1
			if n > 1 {
				m.hfStreamBuffer[3][y][0] = 7
			}
		}
		f.lfGroups = append(f.lfGroups, &LFGroup{hfMetadata: m})
	}
	for c := 0; c < 3; c++ {
		p := util.MakeMatrix2D[float32](8*blocks, 8)
		for y := range p {
			for x := range p[y] {
				p[y][x] = float32((3*x+5*y)%7) / 100000
			}
		}
		f.Buffer = append(f.Buffer, *image.NewImageBufferFromFloats(p))
	}
	before := f.Buffer[1].FloatBuffer[8*255+4][4]
	last := f.Buffer[1].FloatBuffer[8*256+4][4]
	if err := f.performEdgePreservingFilter(); err != nil {
		t.Fatal(err)
	}
	if f.Buffer[1].FloatBuffer[8*255+4][4] == before {
		t.Fatal("the last block of the first group is not filtered")
	}
	if f.Buffer[1].FloatBuffer[8*256+4][4] != last {
		t.Fatal("the block of the second group is filtered")
	}
}
''', "a frame with the edge-preserving filter that is more than 2048 samples high, with other strengths in the second row of LF groups than in the first", "the last row of blocks of an LF group is filtered with the strength of the next LF group")
