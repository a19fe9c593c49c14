package core

import (
	"fmt"
	"math"

	image2 "github.com/kpfaulkner/jxl-go/image"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: images of 1x1, 2x1, 1x2, 3x2 and 12x1 samples, RGB and grey, with and without extra channels; every 32-bit float pattern per sample; integer samples: every value of depths 1, 4, 8 and 10 in one channel of a 1x1 image
// outside: signalling NaN payloads, images of more than 2^31 samples

// w02Parse takes a PFM file apart and returns the samples in image order.
func w02Parse(b []byte, gray bool, w, h int) [][][]uint32 {
	n := 3
	t := "PF"
	if gray {
		n, t = 1, "Pf"
	}
	// type, size and scale, separated by white space
	var tok []string
	p := 0
	for len(tok) < 4 {
		s := p
		for {
			rt.Assert(p < len(b), "the header is complete")
			if b[p] == ' ' || b[p] == '\n' {
				break
			}
			p++
		}
		tok = append(tok, string(b[s:p]))
		p++
	}
	rt.Assert(tok[0] == t, "the header has the type")
	rt.Assert(tok[1] == fmt.Sprintf("%d", w) && tok[2] == fmt.Sprintf("%d", h), "the header has the size")
	little := tok[3][0] == '-'
	rt.Assert(len(b)-p == 4*n*w*h, "the file holds every sample")
	out := make([][][]uint32, h)
	for y := h - 1; y >= 0; y-- {
		out[y] = make([][]uint32, w)
		for x := 0; x < w; x++ {
			for c := 0; c < n; c++ {
				v := uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
				if little {
					v = uint32(b[p+3])<<24 | uint32(b[p+2])<<16 | uint32(b[p+1])<<8 | uint32(b[p])
				}
				out[y][x] = append(out[y][x], v)
				p += 4
			}
		}
	}
	return out
}

// VH_W02_Floats: float samples are written as they are.
func VH_W02_Floats() {
	s := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 2}, {12, 1}}[rt.Concrete(rt.Int(0, 4))]
	w, h := s[0], s[1]
	l := zzLayouts[rt.Concrete(rt.Int(0, 3))]
	hd := zzHeader(l, w, h, 32, 8)
	var buf []image2.ImageBuffer
	for c := 0; c < l.colours()+len(l.extra); c++ {
		m := make([][]float32, h)
		for y := range m {
			m[y] = make([]float32, w)
			for x := range m[y] {
				m[y][x] = rt.F32()
			}
		}
		buf = append(buf, *image2.NewImageBufferFromFloats(m))
	}
	_, floats := zzCopy(buf)
	isInt := make([]bool, len(buf))
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	var o zzSink
	rt.Assert(WritePFM(img, &o) == nil, "an image is written")
	got := w02Parse(o.b, l.gray, w, h)
	for y := range got {
		for x := range got[y] {
			for c, v := range got[y][x] {
				rt.Assert(rt.Same(math.Float32frombits(v), floats[c][y][x]), "every sample is written in place")
			}
		}
	}
	zzUnchanged(img, isInt, make([][][]int32, len(buf)), floats)
	rt.Reach("written")
}

// VH_W02_Ints: integer samples become their share of the maximum.
func VH_W02_Ints() {
	l := zzLayouts[rt.Concrete(rt.Int(0, 2))]
	depth := []uint32{1, 4, 8, 10}[rt.Concrete(rt.Int(0, 3))]
	max := int32(1)<<depth - 1
	n := l.colours() + len(l.extra)
	at := rt.Concrete(rt.Int(0, l.colours()-1))
	hd := zzHeader(l, 1, 1, depth, 8)
	var buf []image2.ImageBuffer
	var want []int32
	var isInt []bool
	for c := 0; c < n; c++ {
		v := int32(c) * max / int32(n)
		if c == at {
			v = int32(rt.Int(0, int(max)))
		}
		want = append(want, v)
		isInt = append(isInt, true)
		buf = append(buf, *image2.NewImageBufferFromInts([][]int32{{v}}))
	}
	ints, _ := zzCopy(buf)
	img, err := NewJXLImageWithBuffer(buf, hd)
	rt.Assert(err == nil, "an image is made of its channels")
	var o zzSink
	rt.Assert(WritePFM(img, &o) == nil, "an image is written")
	got := w02Parse(o.b, l.gray, 1, 1)
	for c, v := range got[0][0] {
		// the share, back in units of the maximum
		d := math.Float32frombits(v)*float32(max) - float32(want[c])
		rt.Assert(d > -0.001 && d < 0.001, "integer samples become their share of the maximum")
	}
	zzUnchanged(img, isInt, ints, make([][][]float32, n))
	rt.Reach("written")
}
