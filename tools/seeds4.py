seed("m01-previous-vshift", "M01", [("frame/ModularChannel.go", "channel.hshift != mc.hshift || channel.vshift != mc.vshift {", "channel.hshift != mc.hshift {")],
 "frame", '''
package frame

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/util"
)

func TestZZDemo(t *testing.T) {
	mk := func(v int32) *ModularChannel {
		return &ModularChannel{size: util.Dimension{Width: 1, Height: 1}, vshift: v, buffer: [][]int32{{7}}}
	}
	ms := &ModularStream{channels: []*ModularChannel{mk(0), mk(1), mk(0)}}
	ms.channels[0].buffer[0][0] = 5
	walk := ms.channels[2].getWalkerFunc(2, 0, 0, 0, 0, ms)
	v, err := walk(17)
	if err != nil || v != 5 {
		t.Fatal(v, err)
	}
	v, err = walk(21)
	if err != nil || v != 0 {
		t.Fatal(v, err)
	}
}
''', "two channels of the same size and horizontal shift but different vertical shifts, and a tree that looks at previous channels", "a channel of another vertical shift counts as a previous channel for the decision tree")
seed("m02-far-north-east", "M02", [("frame/ModularChannel.go", "if x+2 < int32(mc.size.Width) && y > 0 {", "if x+1 < int32(mc.size.Width) && y > 0 {")],
 "frame", '''
package frame

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/util"
)

func TestZZDemo(t *testing.T) {
	mc := &ModularChannel{size: util.Dimension{Width: 3, Height: 2}, buffer: [][]int32{{1, 2, 30}, {5, 6, 7}}}
	got, err := mc.prediction(1, 1, 13)
	if want := int32((6*2 - 2*2 + 7*5 + 5 + 30 + 3*30 + 8) / 16); err != nil || got != want {
		t.Fatal(got, want, err)
	}
}
''', "predictor 13 in the second row or below, two columns before the last", "the sample two to the right in the row above is read from beyond the end of the row")
seed("s01-multiply-offset", "S01", [("core/jxl_codestream_decoder.go", "cf[cy][cx] = newSample * rf[cy][cx]", "cf[cy][cx] = newSample * rf[fy][fx]")],
 "core", '''
package core

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/frame"
	image2 "github.com/kpfaulkner/jxl-go/image"
)

func TestZZDemo(t *testing.T) {
	jxl := NewJXLCodestreamDecoder(nil, nil)
	img := func(v ...float32) image2.ImageBuffer { return *image2.NewImageBufferFromFloats([][]float32{v}) }
	canvas := []image2.ImageBuffer{img(9, 9, 9, 9)}
	ref := img(1, 2, 3, 4)
	fr := img(0.5, 0.25)
	info := &frame.BlendingInfo{Mode: frame.BLEND_MULT}
	err := jxl.performBlending(canvas, info, fr, 0, ref, 1, 0, 0, 2, 2, 0, false, []image2.ImageBuffer{ref}, 1, []image2.ImageBuffer{fr}, 1, false, false)
	if err != nil || canvas[0].FloatBuffer[0][2] != 1.5 || canvas[0].FloatBuffer[0][3] != 1 {
		t.Fatal(canvas[0].FloatBuffer, err)
	}
}
''', "a frame that multiplies a part of the image that does not start at its corner", "the frame is multiplied with the wrong part of the reference frame")
