package core

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// dBits builds codestreams, least significant bit first.
type dBits struct {
	b     []byte
	codes []int // positions of prefix codes
}

func (s *dBits) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		s.b = append(s.b, byte(v>>uint(i)&1))
	}
}

func (s *dBits) pad() {
	for len(s.b)%8 != 0 {
		s.b = append(s.b, 0)
	}
}

func (s *dBits) bytes() []byte {
	out := make([]byte, (len(s.b)+7)/8)
	for i := range out {
		for j := 0; j < 8 && 8*i+j < len(s.b); j++ {
			out[i] |= s.b[8*i+j] << uint(j)
		}
	}
	return out
}

// dImage describes an image without XYB: n colour channels (1 or 3), extra alpha channels.
type dImage struct {
	w, h, colours, alpha, orient int
}

// dFrame describes a modular frame with one tree leaf.
type dFrame struct {
	kind          int // 0 regular, 2 reference only, 3 skip progressive
	crop          bool
	x0, y0, w, h  int
	mode, source  int
	last          bool
	save          int
	early         bool // saved before the colour transform
	flags         int
	shift         int // group size
	pred, token   int
	rct           bool
	name          string
	samples       [][]uint32   // what follows each token, per channel in the order of the samples
	width, height int          // of the frame
	groups        int          // groups with data of their own
	extra         int          // bytes after the data of the last section
	trans         func(*dBits) // transforms, if any but the colour transform
	lehmer        []int        // the order of five sections, in numbers of two bits with the first of them set
}

func (s *dBits) header(m dImage) {
	s.put(0x0aff, 16)
	s.put(0, 1) // not a multiple of eight
	size := func(v int) {
		if v <= 1<<9 {
			s.put(0, 2)
			s.put(uint64(v-1), 9)
		} else {
			s.put(1, 2)
			s.put(uint64(v-1), 13)
		}
	}
	size(m.h)
	s.put(0, 3) // no ratio
	size(m.w)
	s.put(0, 1) // not all default
	if m.orient > 1 {
		s.put(1, 1)
		s.put(uint64(m.orient-1), 3)
		s.put(0, 3) // no intrinsic size, preview, animation
	} else {
		s.put(0, 1)
	}
	s.put(0, 1+2) // 8 bits per sample
	s.put(1, 1)   // 16-bit buffers suffice
	s.put(uint64(m.alpha), 2)
	for i := 0; i < m.alpha; i++ {
		s.put(1, 1) // the default is an alpha channel
	}
	s.put(0, 1) // no XYB
	if m.colours == 3 {
		s.put(1, 1)
	} else {
		s.put(0, 2) // not default, no profile
		s.put(1, 2) // grey
		s.put(1, 2) // D65
		s.put(0, 1) // no gamma
		s.put(2, 2)
		s.put(11, 4) // sRGB
		s.put(1, 2)  // relative
	}
	if m.orient > 1 {
		s.put(1, 1) // default tone mapping
	}
	s.put(0, 2) // no extensions
	s.put(1, 1) // default matrices and upsampling weights
	s.pad()
}

func panicIf(b bool) {
	if b {
		panic("harness")
	}
}

func (s *dBits) dim(v int) {
	if v < 256 {
		s.put(0, 2)
		s.put(uint64(v), 8)
	} else {
		s.put(1, 2)
		s.put(uint64(v-256), 11)
	}
}

func dPack(v int) int {
	if v < 0 {
		return -2*v - 1
	}
	return 2 * v
}

// code describes a code that always delivers the token t, followed by t-1 bits.
func (s *dBits) symbol(t int) {
	s.codes = append(s.codes, len(s.b))
	s.put(1, 2) // listed symbols
	s.put(0, 2) // one
	s.put(uint64(t), 5)
}

func (s *dBits) alphabet() {
	s.put(1, 1) // 32 symbols
	s.put(4, 4)
	s.put(15, 4)
}

// tree is a tree with a single leaf, and the code of the samples.
func (s *dBits) tree(f *dFrame) {
	s.put(0, 1)    // no LZ77
	s.put(1, 1)    // simple clusters
	s.put(1, 2)    // of one bit
	s.put(1<<2, 6) // the predictor has a code of its own
	s.put(1, 1)    // prefix codes
	s.put(15, 4)   // tokens are values
	s.put(15, 4)   //
	s.put(0, 1)    // zeros
	s.alphabet()   //
	s.symbol(f.pred)
	s.put(0, 1) // no LZ77
	s.put(1, 1) // prefix codes
	s.put(0, 4)
	s.alphabet()
	s.symbol(f.token)
}

func (s *dBits) stream(f *dFrame, global, rct bool) {
	if global {
		s.put(1, 1)
	} else {
		s.put(0, 1)
	}
	s.put(1, 1) // default parameters of the weighted predictor
	if f.trans != nil && !(global && !rct) {
		f.trans(s)
	} else if rct {
		s.put(1, 2)
		s.put(0, 2)   // colour transform
		s.put(0, 2+3) // from the first channel
		s.put(0, 2)   // YCoCg
	} else {
		s.put(0, 2)
	}
}

func (s *dBits) values(f *dFrame, v []uint32) {
	for _, x := range v {
		s.put(uint64(x), f.token-1)
	}
}

// frame appends a frame.
func (s *dBits) frame(m dImage, f *dFrame) {
	s.put(0, 1)
	s.put(uint64(f.kind), 2)
	s.put(1, 1)
	if f.flags == 0 {
		s.put(0, 2)
	} else if f.flags < 17 {
		s.put(1, 2)
		s.put(uint64(f.flags-1), 4)
	} else {
		s.put(2, 2)
		s.put(uint64(f.flags-17), 8)
	}
	s.put(0, 1) // no YCbCr
	s.put(0, 2) // no upsampling
	for i := 0; i < m.alpha; i++ {
		s.put(0, 2)
	}
	s.put(uint64(f.shift), 2)
	if f.kind != 2 {
		s.put(0, 2) // one pass
	}
	full := true
	if f.crop {
		s.put(1, 1)
		if f.kind != 2 {
			s.dim(dPack(f.x0))
			s.dim(dPack(f.y0))
			full = f.x0 <= 0 && f.y0 <= 0 && f.x0+f.w >= m.w && f.y0+f.h >= m.h
		} else {
			full = f.w >= m.w && f.h >= m.h
		}
		s.dim(f.w)
		s.dim(f.h)
	} else {
		s.put(0, 1)
	}
	if f.kind != 2 {
		for i := 0; i <= m.alpha; i++ {
			s.put(uint64(f.mode), 2)
			if m.alpha > 0 && f.mode == 2 {
				s.put(0, 2) // first alpha channel
				s.put(0, 1) // no clamping
			}
			if f.mode != 0 || !full {
				s.put(uint64(f.source), 2)
			}
		}
		if f.last {
			s.put(1, 1)
		} else {
			s.put(0, 1)
		}
	}
	if !f.last {
		s.put(uint64(f.save), 2)
		if f.kind == 2 || full && f.mode == 0 {
			if f.early {
				s.put(1, 1)
			} else {
				s.put(0, 1)
			}
		}
	}
	if n := len(f.name); n > 0 {
		s.put(1, 2)
		s.put(uint64(n), 4)
		for i := 0; i < n; i++ {
			s.put(uint64(f.name[i]), 8)
		}
	} else {
		s.put(0, 2)
	}
	s.put(0, 1+1+2) // no filters
	s.put(0, 2)     // no filter extensions
	s.put(0, 2)     // no extensions

	// sections
	var secs []dBits
	var g dBits
	g.put(1, 1) // default LF dequantisation
	if f.groups == 0 {
		g.put(0, 1) // no tree for all
		g.stream(f, false, f.rct)
		g.tree(f)
		for _, c := range f.samples {
			g.values(f, c)
		}
		secs = append(secs, g)
	} else {
		g.put(1, 1)
		g.tree(f)
		g.stream(f, true, f.rct)
		secs = append(secs, g, dBits{})
		d := 1024 << uint(f.shift)
		for i := 0; i < ((f.width+d-1)/d)*((f.height+d-1)/d); i++ {
			secs = append(secs, dBits{})
		}
		for i := 0; i < f.groups; i++ {
			var d dBits
			d.stream(f, true, false)
			for c := range f.samples {
				d.values(f, dGroup(f, c, i))
			}
			secs = append(secs, d)
		}
	}
	if f.lehmer == nil {
		s.put(0, 1) // sections in order
	} else {
		panicIf(len(secs) != 5)
		s.put(1, 1)
		s.put(0, 1) // no LZ77
		s.put(1, 1) // all contexts alike
		s.put(0, 2)
		s.put(1, 1) // prefix codes
		s.put(0, 4)
		s.alphabet()
		s.symbol(2)
		s.put(uint64(len(f.lehmer)-2), 1)
		left := []int{0, 1, 2, 3, 4}
		out := make([]dBits, 5)
		for i := range secs {
			k := 0
			if i < len(f.lehmer) {
				k = f.lehmer[i]
				s.put(uint64(k-2), 1)
			}
			out[left[k]] = secs[i]
			left = append(append([]int{}, left[:k]...), left[k+1:]...)
		}
		secs = out
	}
	s.pad()
	for i := range secs {
		secs[i].pad()
		if i == len(secs)-1 {
			secs[i].put(0, 8*f.extra)
		}
		s.put(0, 2)
		s.put(uint64(len(secs[i].b)/8), 10)
	}
	s.pad()
	for i := range secs {
		for _, c := range secs[i].codes {
			s.codes = append(s.codes, len(s.b)+c)
		}
		s.b = append(s.b, secs[i].b...)
	}
}

// dGroup are the samples of channel c in group i.
func dGroup(f *dFrame, c, i int) (v []uint32) {
	d := 128 << uint(f.shift)
	n := (f.width + d - 1) / d
	for y := i / n * d; y < f.height && y < i/n*d+d; y++ {
		for x := i % n * d; x < f.width && x < i%n*d+d; x++ {
			v = append(v, f.samples[c][y*f.width+x])
		}
	}
	return
}

// dValue is the number a token and the bits after it stand for.
func dValue(token int, v uint32) int32 {
	n := uint32(0)
	if token > 0 {
		n = 1<<uint(token-1) | v
	}
	return jxlio.UnpackSigned(n)
}

// plane codes one channel: what follows each token, and the samples it stands for.
func (f *dFrame) plane(w, h int, value func(i int) uint32) (code []uint32, out []int32) {
	d := 128 << uint(f.shift)
	code = make([]uint32, w*h)
	out = make([]int32, w*h)
	for i := range out {
		v := value(i)
		code[i] = v
		r := dValue(f.token, v)
		x, y := i%w, i/w
		left, top := x%d == 0, y%d == 0
		at := func(dx, dy int) int32 { return out[(y+dy)*w+x+dx] }
		west := int32(0)
		switch {
		case !left:
			west = at(-1, 0)
		case !top:
			west = at(0, -1)
		}
		switch f.pred {
		case 1:
			r += west
		case 2:
			if !top {
				r += at(0, -1)
			} else {
				r += west
			}
		}
		out[i] = r
	}
	return
}

// fill chooses the samples of a frame and gives what they decode to, channel by channel.
func (f *dFrame) fill(m dImage) [][]int32 {
	f.width, f.height = m.w, m.h
	if f.crop {
		f.width, f.height = f.w, f.h
	}
	d := 128 << uint(f.shift)
	f.groups = 0
	if f.width > d || f.height > d {
		f.groups = ((f.width + d - 1) / d) * ((f.height + d - 1) / d)
	}
	n := m.colours + m.alpha
	out := make([][]int32, n)
	f.samples = make([][]uint32, n)
	for c := range out {
		f.samples[c], out[c] = f.plane(f.width, f.height, func(int) uint32 { return uint32(rt.U16()) & (1<<uint(f.token-1) - 1) })
	}
	if f.rct {
		for i := range out[0] {
			a, b, e := out[0][i], out[1][i], out[2][i]
			t := a - e>>1
			gg := e + t
			bl := t - b>>1
			out[0][i], out[1][i], out[2][i] = bl+b, gg, bl
		}
	}
	return out
}

func dDecode(data []byte) (*JXLImage, error) {
	return NewJXLDecoder(bytes.NewReader(data), nil).Decode()
}

// dOrient gives the position of output sample (x, y) of an ow x oh image in the coded image.
func dOrient(o, x, y, ow, oh int) (int, int) {
	switch o {
	case 2:
		return ow - 1 - x, y
	case 3:
		return ow - 1 - x, oh - 1 - y
	case 4:
		return x, oh - 1 - y
	case 5:
		return y, x
	case 6:
		return y, ow - 1 - x
	case 7:
		return oh - 1 - y, ow - 1 - x
	case 8:
		return oh - 1 - y, x
	}
	return x, y
}

func dSame(img *JXLImage, m dImage, want [][]int32) {
	ow, oh := m.w, m.h
	if m.orient > 4 {
		ow, oh = oh, ow
	}
	rt.Assert(int(img.Width) == ow && int(img.Height) == oh, "the image has the size of the header")
	rt.Assert(len(img.Buffer) == len(want), "the image has all its channels")
	if int(img.Width) != ow || int(img.Height) != oh || len(img.Buffer) != len(want) {
		return
	}
	for c := range want {
		b := img.Buffer[c]
		rt.Assert(b.IsInt() && int(b.Width) == ow && int(b.Height) == oh, "samples are integers of the coded depth")
		if !b.IsInt() || int(b.Width) != ow || int(b.Height) != oh {
			continue
		}
		for y := 0; y < oh; y++ {
			for x := 0; x < ow; x++ {
				sx, sy := dOrient(m.orient, x, y, ow, oh)
				rt.Assert(b.IntBuffer[y][x] == want[c][sy*m.w+sx], "every sample is the coded one")
			}
		}
	}
}
