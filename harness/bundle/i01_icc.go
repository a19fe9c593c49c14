package bundle

import (
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: header prediction for profiles of 0..5, 45, 84, 100 and 128 bytes with every data byte symbolic; tag lists of two tags with or without offset and size, and of up to 2 arbitrary bytes (thorough 3); main command streams of up to 3 symbolic command bytes (thorough 4); declared sizes from 0 to 76 bytes beyond the header, up to 14 bytes of data beyond it; symbolic size fields in 3 byte streams; shuffles of up to 9 bytes; contexts for all byte pairs
// outside: tag offsets and sizes above 2^31, streams with unused data after the last command (accepted), longer command streams

type iccRef struct {
	cmd, data []byte
	c, d      int
	out       []byte
	size      int
	bad       bool
	huge      bool
}

func (r *iccRef) cb() byte {
	if r.bad || r.c >= len(r.cmd) {
		r.bad = true
		return 0
	}
	r.c++
	return r.cmd[r.c-1]
}

func (r *iccRef) varint() uint64 {
	var v uint64
	for s := uint(0); s < 63; s += 7 {
		b := r.cb()
		if r.bad {
			return 0
		}
		v |= uint64(b&127) << s
		if b < 128 {
			break
		}
	}
	if v > 0x7fffffff {
		r.bad = true
		return 0
	}
	return v
}

func (r *iccRef) put(b ...byte) {
	if r.bad {
		return
	}
	if len(r.out)+len(b) > r.size {
		r.bad = true
		return
	}
	r.out = append(r.out, b...)
}

func (r *iccRef) put32(v uint32) { r.put(byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func (r *iccRef) take(n uint64) []byte {
	if r.bad {
		return nil
	}
	left := uint64(len(r.data) - r.d)
	rt.Assume(n <= left+2 || n > uint64(len(r.data)))
	if n > left {
		r.bad = true
		return nil
	}
	k := rt.Concrete(int(n))
	r.d += k
	return r.data[r.d-k : r.d]
}

func iccHeaderPred(size int, h []byte, i int) byte {
	if i < 4 {
		return byte(uint32(size) >> uint(8*(3-i)))
	}
	switch {
	case i == 8:
		return 4
	case i >= 12 && i < 24:
		return "mntrRGB XYZ "[i-12]
	case i >= 36 && i < 40:
		return "acsp"[i-36]
	case i == 41 || i == 42 || i == 43:
		if h[40] == 'A' {
			return "APPL"[i-40]
		}
		if h[40] == 'M' {
			return "MSFT"[i-40]
		}
		if i > 41 && h[40] == 'S' && h[41] == 'G' {
			return "SGI "[i-40]
		}
		if i > 41 && h[40] == 'S' && h[41] == 'U' {
			return "SUNW"[i-40]
		}
	case i == 70:
		return 246
	case i == 71:
		return 214
	case i == 73:
		return 1
	case i == 78:
		return 211
	case i == 79:
		return 45
	case i >= 80 && i < 84:
		return h[i-76]
	}
	return 0
}

func iccUnshuffle(b []byte, w int) []byte {
	n := len(b)
	h := (n + w - 1) / w
	out := make([]byte, 0, n)
	for i := 0; i < h; i++ {
		for j := i; j < n && len(out) < n; j += h {
			out = append(out, b[j])
		}
	}
	return out
}

// iccDecode is the format's ICC decoding of a command and a data stream.
func (r *iccRef) decode() {
	for i := 0; i < r.size && i < 128; i++ {
		if r.d >= len(r.data) {
			r.bad = true
			return
		}
		r.out = append(r.out, r.data[r.d]+iccHeaderPred(r.size, r.out, i))
		r.d++
	}
	if len(r.out) == r.size {
		return
	}
	tags := r.varint()
	if r.bad {
		return
	}
	if tags > 0 {
		tags--
		r.put32(uint32(tags))
		prevStart, prevSize := 128+uint64(tags)*12, uint64(0)
		for r.c < len(r.cmd) && !r.bad {
			c := r.cb()
			code := c & 63
			if code == 0 {
				break
			}
			var name string
			switch code {
			case 1:
				name = string(r.take(4))
				if r.bad {
					return
				}
			case 2:
				name = "rTRC"
			case 3:
				name = "rXYZ"
			case 4:
				name = "cprt"
			case 5:
				name = "wtpt"
			case 6:
				name = "bkpt"
			case 7:
				name = "rXYZ"
			case 8:
				name = "gXYZ"
			case 9:
				name = "bXYZ"
			case 10:
				name = "kXYZ"
			case 11:
				name = "rTRC"
			case 12:
				name = "gTRC"
			case 13:
				name = "bTRC"
			case 14:
				name = "kTRC"
			case 15:
				name = "chad"
			case 16:
				name = "desc"
			case 17:
				name = "chrm"
			case 18:
				name = "dmnd"
			case 19:
				name = "dmdd"
			case 20:
				name = "lumi"
			default:
				r.bad = true
				return
			}
			start := prevStart + prevSize
			if c&64 != 0 {
				start = r.varint()
			}
			size := prevSize
			switch name {
			case "rXYZ", "gXYZ", "bXYZ", "kXYZ", "wtpt", "bkpt", "lumi":
				size = 20
			}
			if c&128 != 0 {
				size = r.varint()
			}
			if start+2*size > 0x7fffffff {
				r.huge = true
				return
			}
			prevStart, prevSize = start, size
			emit := func(n string, s uint64) {
				r.put(n[0], n[1], n[2], n[3])
				r.put32(uint32(s))
				r.put32(uint32(size))
			}
			emit(name, start)
			if code == 2 {
				emit("gTRC", start)
				emit("bTRC", start)
			}
			if code == 3 {
				emit("gXYZ", start+size)
				emit("bXYZ", start+2*size)
			}
		}
	}
	for r.c < len(r.cmd) && !r.bad {
		c := r.cb()
		switch {
		case c == 1:
			r.put(r.take(r.varint())...)
		case c == 2:
			r.put(iccUnshuffle(r.take(r.varint()), 2)...)
		case c == 3:
			r.put(iccUnshuffle(r.take(r.varint()), 4)...)
		case c == 4:
			f := r.cb()
			w := int(rt.Concrete(int(f&3))) + 1
			order := rt.Concrete(int(f >> 2 & 3))
			stride := uint64(w)
			if f&16 != 0 {
				stride = r.varint()
			}
			if w == 3 || order == 3 || stride < uint64(w) || stride*4 >= uint64(len(r.out)) {
				r.bad = true
				return
			}
			b := r.take(r.varint())
			if r.bad {
				return
			}
			if w > 1 {
				b = iccUnshuffle(b, w)
			}
			st := rt.Concrete(int(stride))
			for i := 0; i < len(b); i += w {
				var v [4]uint32
				p := len(r.out)
				for k := 1; k <= 3; k++ {
					for j := 0; j < w; j++ {
						v[k] = v[k]<<8 | uint32(r.out[p-k*st+j])
					}
				}
				pred := v[1]
				if order == 1 {
					pred = 2*v[1] - v[2]
				} else if order == 2 {
					pred = 3*v[1] - 3*v[2] + v[3]
				}
				for j := 0; j < w && i+j < len(b); j++ {
					r.put(b[i+j] + byte(pred>>uint(8*(w-1-j))))
					if r.bad {
						return
					}
				}
			}
		case c == 10:
			b := r.take(12)
			r.put('X', 'Y', 'Z', ' ', 0, 0, 0, 0)
			r.put(b...)
		case c >= 16 && c < 24:
			c = byte(rt.Concrete(int(c)))
			n := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}[c-16]
			r.put(n[0], n[1], n[2], n[3], 0, 0, 0, 0)
		default:
			r.bad = true
		}
	}
	if len(r.out) != r.size {
		r.bad = true
	}
}

func iccVar(n int) []byte {
	var out []byte
	for n > 127 {
		out = append(out, byte(n)|128)
		n >>= 7
	}
	return append(out, byte(n))
}

func iccCheck(size int, cmd, data []byte) {
	ref := &iccRef{cmd: cmd, data: data, size: size}
	ref.decode()
	rt.Assume(!ref.huge)
	enc := append(append(iccVar(size), iccVar(len(cmd))...), cmd...)
	enc = append(enc, data...)
	h := &ImageHeader{EncodedICC: enc}
	out, err := h.GetDecodedICC()
	if ref.bad {
		rt.Assert(err != nil, "a malformed ICC stream is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a well-formed ICC stream is accepted")
	rt.Assert(len(out) == size, "the profile has the declared size")
	for i := range ref.out {
		rt.Assert(out[i] == ref.out[i], "profile bytes are those the format defines")
	}
	rt.Reach("ok")
}

func VH_I01_Header() {
	sizes := []int{0, 1, 5, 45, 84, 100, 128}
	size := sizes[rt.Concrete(rt.Int(0, len(sizes)-1))]
	iccCheck(size, nil, rt.Bytes(size))
}

func VH_I01_HeaderShort() {
	size := 1 + rt.Concrete(rt.Int(0, 3))
	iccCheck(size, nil, rt.Bytes(size-1))
}

// iccBase is 128 bytes of header data with distinctive values.
func iccBase() []byte {
	b := make([]byte, 128)
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
	return b
}

func iccTag(c byte) []byte {
	b := []byte{c}
	if c&64 != 0 {
		b = append(b, rt.Bytes(1)...)
	}
	if c&128 != 0 {
		b = append(b, rt.Bytes(1)...)
	}
	return b
}

// Two tags; offsets and sizes present or not.
func VH_I01_Tags() {
	c1, c2 := rt.U8(), rt.U8()
	n := c1 & 63
	rt.Assume(n == 2 || n == 3 || n == 5 || rt.Thorough())
	cmd := append([]byte{3}, iccTag(c1)...)
	cmd = append(cmd, iccTag(c2)...)
	data := append(iccBase(), rt.Bytes(4)...)
	k := 2 + 2*rt.Concrete(rt.Int(0, 1))
	if rt.Thorough() {
		k = rt.Concrete(rt.Int(1, 6))
	}
	iccCheck(128+4+12*k, cmd, data)
}

// Arbitrary bytes where tags are expected.
func VH_I01_TagBytes() {
	n := 2
	if rt.Thorough() {
		n = 3
	}
	cmd := append([]byte{1}, rt.Bytes(rt.Concrete(rt.Int(0, n)))...)
	data := append(iccBase(), rt.Bytes(4)...)
	iccCheck(128+[]int{3, 4, 15, 16, 40}[rt.Concrete(rt.Int(0, 4))], cmd, data)
}

func VH_I01_Commands() {
	n, sizes := 3, []int{3, 8, 20}
	if rt.Thorough() {
		n, sizes = 4, []int{3, 4, 5, 8, 9, 20}
	}
	k := rt.Concrete(rt.Int(0, n))
	cmd := append([]byte{0}, rt.Bytes(k)...)
	data := append(iccBase(), rt.Bytes(14)...)
	iccCheck(128+sizes[rt.Concrete(rt.Int(0, len(sizes)-1))], cmd, data)
}

// Prediction over bytes that were themselves produced from symbolic data.
func VH_I01_Predict() {
	flags := rt.U8()
	num := byte(rt.Concrete(rt.Int(1, 6)))
	cmd := []byte{0, 1, 12, 4, flags}
	if flags&16 != 0 {
		cmd = append(cmd, byte(rt.Concrete(rt.Int(1, 6))))
	}
	cmd = append(cmd, num)
	data := append(iccBase(), rt.Bytes(12+int(num))...)
	iccCheck(128+12+int(num), cmd, data)
}

// Declared sizes are symbolic as well.
func VH_I01_Sizes() {
	enc := rt.Bytes(3 + rt.Concrete(rt.Int(0, 1)))
	r := &iccRef{cmd: enc}
	size := r.varint()
	cs := r.varint()
	bad := r.bad || cs > uint64(len(enc)-r.c)
	rt.Assume(bad || size <= 6)
	h := &ImageHeader{EncodedICC: enc}
	if bad {
		_, err := h.GetDecodedICC()
		rt.Assert(err != nil, "invalid size fields are an error")
		rt.Reach("rejected")
		return
	}
	k := rt.Concrete(int(cs))
	d := &iccRef{cmd: enc[r.c : r.c+k], data: enc[r.c+k:], size: rt.Concrete(int(size))}
	d.decode()
	out, err := h.GetDecodedICC()
	if d.bad {
		rt.Assert(err != nil, "a malformed ICC stream is an error")
		return
	}
	rt.Assert(err == nil && len(out) == d.size, "the profile has the declared size")
	for i := range d.out {
		rt.Assert(out[i] == d.out[i], "profile bytes are those the format defines")
	}
	rt.Reach("ok")
}

func VH_I01_Empty() {
	h := &ImageHeader{}
	out, err := h.GetDecodedICC()
	rt.Assert(out == nil && err == nil, "no profile without encoded data")
	h.EncodedICC = []byte{}
	_, err = h.GetDecodedICC()
	rt.Assert(err != nil, "an empty stream is an error")
}

// The context of each encoded byte when the stream is entropy decoded.
func VH_I01_Context() {
	b := rt.Bytes(2)
	buf := make([]byte, 200)
	i := rt.Concrete([]int{0, 1, 127, 128, 129, 130, 199}[rt.Int(0, 6)])
	if i >= 2 {
		buf[i-1], buf[i-2] = b[0], b[1]
	}
	got := GetICCContext(buf, i)
	if i <= 128 {
		rt.Assert(got == 0, "header bytes use context 0")
		return
	}
	letter := func(x byte) bool { return x|32 >= 'a' && x|32 <= 'z' }
	digit := func(x byte) bool { return x >= '0' && x <= '9' || x == '.' || x == ',' }
	k1 := 7
	switch x := b[0]; {
	case letter(x):
		k1 = 0
	case digit(x):
		k1 = 1
	case x == 0:
		k1 = 2
	case x == 1:
		k1 = 3
	case x < 16:
		k1 = 4
	case x > 240 && x < 255:
		k1 = 5
	case x == 255:
		k1 = 6
	}
	k2 := 4
	switch x := b[1]; {
	case letter(x):
		k2 = 0
	case digit(x):
		k2 = 1
	case x < 16:
		k2 = 2
	case x > 240:
		k2 = 3
	}
	rt.Assert(got == 1+k1+8*k2, "context is determined by the kinds of the two preceding bytes")
	rt.Reach("context")
}
