package core

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/options"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

func rDecode(data []byte) error {
	img, err := NewJXLDecoder(bytes.NewReader(data), options.NewJXLOptions(nil)).Decode()
	rt.Assert(err != nil || img != nil, "decoding gives an image or an error")
	if err != nil {
		rt.Reach("refused")
	} else {
		rt.Reach("decoded")
	}
	return err
}

// bound: files of up to 4 (thorough: 5) bytes
// VH_R01_File: any file of a few bytes.
func VH_R01_File() {
	n := 4
	if rt.Thorough() {
		n = 5
	}
	rDecode(rt.Bytes(rt.Concrete(rt.Int(0, n))))
}

// window replaces n bits from position p on by arbitrary ones.
func (s *dBits) window(p, n int) (same bool) {
	v := rt.U16()
	var old uint16
	m := 0
	for ; m < n && p+m < len(s.b); m++ {
		old |= uint16(s.b[p+m]) << uint(m)
		s.b[p+m] = byte(v >> uint(m) & 1)
	}
	return v&(1<<uint(m)-1) == old
}

// rWindow decodes a valid stream in which any window of n bits after position p, other than
// those over codes at the positions skip, has been replaced.
func rWindow(s *dBits, p, n int, skip ...int) {
	rt.Set("longpaths", 1)
	rt.Set("maxsteps", 4000000)
	if rt.Thorough() {
		n *= 2
	}
	var at []int
	for q := p; q < len(s.b); q += n {
		ok := true
		for _, c := range skip {
			if q+n > c-29 && q < c+9 {
				ok = false
			}
		}
		if ok {
			at = append(at, q)
		}
	}
	same := s.window(at[rt.Concrete(rt.Int(0, len(at)-1))], n)
	err := rDecode(s.bytes())
	rt.Assert(!same || err == nil, "a valid stream decodes")
}

func rModular(m dImage, frames ...*dFrame) (s *dBits, p int) {
	s = &dBits{}
	s.header(m)
	p = len(s.b)
	for _, f := range frames {
		f.width, f.height = m.w, m.h
		if f.crop {
			f.width, f.height = f.w, f.h
		}
		f.samples = make([][]uint32, m.colours+m.alpha)
		for c := range f.samples {
			f.samples[c] = make([]uint32, f.width*f.height)
			for i := range f.samples[c] {
				f.samples[c][i] = uint32(i*5+c) % 7
			}
		}
		s.frame(m, f)
	}
	return
}

// bound: any 4 (thorough: 8) bits of the stream, at every multiple of that, replaced by arbitrary ones
// outside: paths of more than 4 million instructions (such inputs are only run natively, to see that they end)
// VH_R01_Grey: a grey lossless image.
func VH_R01_Grey() {
	s, _ := rModular(dImage{w: 3, h: 2, colours: 1, orient: 1}, &dFrame{last: true, shift: 1, token: 4, pred: 1})
	rWindow(s, 0, 4)
}

// outside: in streams with several channels or frames, bits of the codes of the tree
// VH_R01_RGBA: a colour image with an alpha channel and a colour transform.
func VH_R01_RGBA() {
	s, p := rModular(dImage{w: 2, h: 2, colours: 3, alpha: 1, orient: 6}, &dFrame{last: true, shift: 1, token: 4, rct: true, name: "ab"})
	rWindow(s, p, 4, s.codes...)
}

// VH_R01_Frames: several frames.
func VH_R01_Frames() {
	s, p := rModular(dImage{w: 3, h: 3, colours: 1, orient: 1},
		&dFrame{kind: 2, save: 1, token: 3, early: true},
		&dFrame{crop: true, x0: 1, w: 2, h: 1, save: 2, token: 3},
		&dFrame{last: true, token: 3, mode: 1, source: 1})
	rWindow(s, p, 4, s.codes...)
}

// VH_R01_Groups: a modular frame of two groups.
func VH_R01_Groups() {
	s, p := rModular(dImage{w: 129, h: 1, colours: 1, orient: 1}, &dFrame{last: true, token: 1, groups: 2})
	rWindow(s, p, 3)
}

// VH_R01_VarDCT: an XYB image of one block.
func VH_R01_VarDCT() {
	s := &dBits{}
	s.put(0x0aff, 16)
	s.put(1, 1) // multiple of eight
	s.put(0, 5)
	s.put(1, 3) // square
	s.put(3, 2) // all default
	s.pad()
	p := len(s.b)
	s.put(1, 1) // all default
	s.put(0, 1) // sections in order
	s.pad()
	d := rVarDCT()
	s.put(0, 2)
	s.put(uint64(len(d.b)/8), 10)
	s.pad()
	s.b = append(s.b, d.b...)
	rWindow(s, p, 3)
}

// rVarDCT is the section of a VarDCT frame with a single block without coefficients.
func rVarDCT() *dBits {
	s := &dBits{}
	s.put(1, 1)  // LF dequantisation
	s.put(1, 2)  // quantiser
	s.put(0, 11) //
	s.put(0, 2)  // 16
	s.put(1, 1)  // block contexts
	s.put(1, 1)  // chroma from luma
	s.put(1, 1)  // a tree for all
	f := &dFrame{}
	s.tree(f)
	s.put(0, 2)   // LF: precision
	s.put(1+2, 4) // tree for all, default parameters, no transform
	s.put(1+2, 4) // HF metadata
	s.put(1, 1)   // default matrices
	s.put(2, 2)   // natural orders
	s.put(0, 1)   // no LZ77
	s.put(1, 1)   // simple clusters
	s.put(0, 2)   // only one
	s.put(1, 1)   // prefix codes
	s.put(15, 4)  // tokens are values
	s.put(0, 1)   // one symbol
	s.pad()
	return s
}
