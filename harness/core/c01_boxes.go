package core

import (
	"bytes"
	"io"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: files with the container signature followed by up to 2 (quick) or 3 (thorough) boxes of arbitrary type (codestream, partial codestream, level and arbitrary other types) and every 32-bit size, arbitrary file length below 2^36
// bound: 1 (quick) or 2 (thorough) boxes with 64-bit sizes below 2^32+2^20 (plus any size below the header size or above 2^63)
// bound: real reader: 12 arbitrary signature bytes, then 16 or 17 (thorough 22 or 23) arbitrary bytes with box sizes up to 24
// outside: BoxSize of a size-0 box (extends to end of file) is not compared; level boxes of size 0

// c01File is a virtual file that only knows box headers: every header byte read is
// an arbitrary value, skipping is plain arithmetic, and each read is checked to be at
// the place where the format puts the next header byte.
type c01File struct {
	jxlio.BitReader
	pos    int64
	size   int64 // file length
	start  int64 // start of the current box
	hdr    []byte
	need   int // header bytes of the current box known to be needed
	next   int64
	n, max int
	small  bool // no 64-bit sizes
	sig    bool
	end    bool // the current box extends to the end of the file
	boxes  []c01Box
	level  int
	bad    bool
}

// header is called when all bytes needed so far are known.
func (f *c01File) header() {
	h := f.hdr
	size := rt.BE(h[:4])
	large := size == 1
	rt.Assume(!(large && f.small))
	if len(h) == 4 {
		if size >= 2 && size < 8 {
			f.bad = true
			return
		}
		f.need = 8
		return
	}
	tag := rt.BE(h[4:8])
	hl := uint64(8)
	if large {
		if len(h) < 16 {
			f.need = 16
			return
		}
		hl = 16
		size = rt.BE(h[8:16])
		rt.Assume(size < 1<<32+1<<20 || size > 1<<63)
		if size < 16 || size > 1<<63 {
			f.bad = true
			return
		}
	}
	f.end = size == 0
	if f.end {
		size = uint64(f.size - f.start)
	}
	payload := size - hl
	f.next = f.start + int64(size)
	switch tag {
	case 0x6a786c70: // jxlp
		if payload < 4 {
			f.bad = true
			return
		}
		if f.need == int(hl) {
			f.need += 4
			return
		}
		f.boxes = append(f.boxes, c01Box{tag, payload - 4, f.start + int64(hl) + 4, f.end})
	case 0x6a786c63: // jxlc
		f.boxes = append(f.boxes, c01Box{tag, payload, f.start + int64(hl), f.end})
	case 0x6a786c6c: // jxll
		rt.Assume(!f.end)
		if payload != 1 {
			f.bad = true
			return
		}
		if f.need == int(hl) {
			f.need++
			return
		}
		l := h[hl]
		if l != 5 && l != 10 {
			f.bad = true
			return
		}
		f.level = int(l)
	}
	f.need = 0
	if f.next > f.size {
		f.bad = true
	}
}

func (f *c01File) read(b []byte) error {
	if !f.sig {
		f.sig = true
		copy(b, []byte{0, 0, 0, 12, 'J', 'X', 'L', ' ', 13, 10, 0x87, 10})
		f.pos += 12
		f.start, f.need = 12, 4
		return nil
	}
	if f.need == 0 {
		rt.Assert(f.pos == f.next, "box headers are read right after the previous box's declared size")
		f.n++
		f.start, f.pos, f.hdr, f.need = f.next, f.next, nil, 4
		if f.n == f.max {
			// bound on the number of boxes: the file ends here
			rt.Assume(f.pos == f.size)
		}
	}
	if f.pos >= f.size {
		f.bad = f.bad || len(f.hdr) > 0
		return io.EOF
	}
	if f.size-f.pos < int64(len(b)) {
		f.pos = f.size
		f.bad = true
		return io.ErrUnexpectedEOF
	}
	for i := range b {
		b[i] = rt.U8()
		f.hdr = append(f.hdr, b[i])
		f.pos++
		if len(f.hdr) == f.need && !f.bad {
			f.header()
		}
	}
	return nil
}

func (f *c01File) ReadBytesToBuffer(buffer []uint8, n uint32) error { return f.read(buffer[:n]) }
func (f *c01File) ReadByteArrayWithOffsetAndLength(buffer []byte, offset int64, length uint32) error {
	f.pos = offset
	return f.read(buffer[:length])
}
func (f *c01File) ReadByte() (uint8, error) {
	b := make([]byte, 1)
	err := f.read(b)
	return b[0], err
}
func (f *c01File) ReadBits(bits uint32) (uint64, error) {
	b := make([]byte, bits/8)
	if err := f.read(b); err != nil {
		return 0, err
	}
	var v uint64
	for i := range b {
		v |= uint64(b[i]) << uint(8*i)
	}
	return v, nil
}
func (f *c01File) ReadBytesUint64(n int) (uint64, error) { return f.ReadBits(uint32(n) * 8) }
func (f *c01File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = off
	case 1:
		f.pos += off
	default:
		f.pos = f.size + off
	}
	return f.pos, nil
}
func (f *c01File) Reset() error         { f.pos = 0; return nil }
func (f *c01File) AtEnd() bool          { return f.pos >= f.size }
func (f *c01File) ZeroPadToByte() error { return nil }
func (f *c01File) GetBitsCount() uint64 { return uint64(f.pos) * 8 }
func (f *c01File) BitsRead() uint64     { return uint64(f.pos) * 8 }
func (f *c01File) SkipBits(bits uint32) error {
	_, err := f.Skip(bits / 8)
	return err
}
func (f *c01File) Skip(n uint32) (int64, error) {
	if f.size-f.pos < int64(n) {
		f.pos = f.size
		return 0, io.ErrUnexpectedEOF
	}
	f.pos += int64(n)
	return int64(n), nil
}

type c01Box struct {
	tag, size uint64
	off       int64
	toEnd     bool
}

// c01Ref parses the logged bytes as the format defines boxes.
type c01Ref struct {
	log   []byte
	at    []int64
	li    int
	pos   int64
	size  int64
	want  bool // the reference needed a byte the reader never asked for
	boxes []c01Box
	level int
	bad   bool
}

func (r *c01Ref) take(n int) (uint64, bool) {
	if r.size-r.pos < int64(n) {
		r.bad = true
		return 0, false
	}
	if r.li+n > len(r.log) {
		r.want = true
		return 0, false
	}
	var v uint64
	for i := 0; i < n; i++ {
		rt.Assert(r.at[r.li] == r.pos, "box headers are read right after the previous box's declared size")
		v = v<<8 | uint64(r.log[r.li])
		r.li++
		r.pos++
	}
	return v, true
}

func (r *c01Ref) run(max int) bool {
	for k := 0; k < max; k++ {
		if r.pos >= r.size {
			return true
		}
		start := r.pos
		size, ok := r.take(4)
		if !ok {
			return true
		}
		if size >= 2 && size < 8 {
			r.bad = true
			return true
		}
		tag, ok := r.take(4)
		if !ok {
			return true
		}
		hdr := uint64(8)
		toEnd := size == 0
		if size == 1 {
			hdr = 16
			if size, ok = r.take(8); !ok {
				return true
			}
			rt.Assume(size < 1<<32+1<<20 || size > 1<<63)
			if size < 16 || size > 1<<63 {
				r.bad = true
				return true
			}
		}
		if toEnd {
			size = uint64(r.size - start)
		}
		payload := size - hdr
		switch tag {
		case 0x6a786c70: // jxlp
			if payload < 4 {
				r.bad = true
				return true
			}
			if _, ok = r.take(4); !ok {
				return true
			}
			r.boxes = append(r.boxes, c01Box{tag, payload - 4, r.pos, toEnd})
		case 0x6a786c63: // jxlc
			r.boxes = append(r.boxes, c01Box{tag, payload, r.pos, toEnd})
		case 0x6a786c6c: // jxll
			rt.Assume(!toEnd)
			if payload != 1 {
				r.bad = true
				return true
			}
			l, ok := r.take(1)
			if !ok {
				return true
			}
			if l != 5 && l != 10 {
				r.bad = true
				return true
			}
			r.level = int(l)
		}
		if toEnd {
			r.pos = r.size
			return true
		}
		if uint64(r.size-start) < size {
			r.bad = true
			return true
		}
		r.pos = start + int64(size)
	}
	return false
}

func c01Compare(r *c01Ref, boxes []ContainerBoxHeader, err error, level int) {
	if r.want {
		rt.Assert(false, "every box up to the end of the file is examined")
		return
	}
	if r.bad || len(r.boxes) == 0 {
		rt.Assert(err != nil, "malformed boxes and missing codestreams are errors")
		rt.Reach("malformed")
		return
	}
	rt.Assert(err == nil, "well-formed boxes are accepted")
	rt.Assert(len(boxes) == len(r.boxes), "exactly the codestream boxes are reported")
	if err != nil || len(boxes) != len(r.boxes) {
		return
	}
	for i, b := range r.boxes {
		rt.Assert(boxes[i].BoxType == b.tag, "boxes are in file order")
		rt.Assert(boxes[i].Offset == b.off, "the offset is that of the payload")
		if !b.toEnd {
			rt.Assert(boxes[i].BoxSize == b.size, "the size is that of the payload")
		}
	}
	rt.Assert(level == r.level, "the level box is honoured")
	rt.Reach("boxes")
}

func VH_C01_Virtual32() {
	n := 2
	if rt.Thorough() {
		n = 3
	}
	c01Virtual(&c01File{level: 5, max: n, small: true})
}

func VH_C01_Virtual64() {
	n := 1
	if rt.Thorough() {
		n = 2
	}
	c01Virtual(&c01File{level: 5, max: n})
}

func c01Virtual(f *c01File) {
	f.size = int64(rt.Int(12, 1<<36))
	br := NewBoxReader(f)
	boxes, err := br.ReadBoxHeader()
	if !f.bad {
		if f.need == 0 && !f.end {
			rt.Assert(f.next == f.size, "every box up to the end of the file is examined")
		} else if !f.end {
			rt.Assert(err != nil || len(f.hdr) == 0, "a truncated header is an error")
		}
	}
	r := &c01Ref{boxes: f.boxes, bad: f.bad, level: f.level}
	c01Compare(r, boxes, err, br.level)
}

func VH_C01_Real() {
	n := 16 + rt.Concrete(rt.Int(0, 1))
	if rt.Thorough() {
		n += 6
	}
	data := append(append([]byte{}, JPEGXL_CONTAINER_HEADER[:]...), rt.Bytes(n)...)
	at := make([]int64, len(data))
	for i := range at {
		at[i] = int64(i)
	}
	// reference pass: contents are addressed directly
	r := &c01Ref{size: int64(len(data)), pos: 12, level: 5}
	done := false
	for k := 0; k < 4 && !done; k++ {
		// re-point the log at the current position
		p := rt.Concrete(int(r.pos))
		r.log, r.at, r.li = data[p:], at[p:], 0
		if len(r.log) >= 4 {
			s := uint32(data[p])<<24 | uint32(data[p+1])<<16 | uint32(data[p+2])<<8 | uint32(data[p+3])
			rt.Assume(s <= 24)
			if s == 1 && len(r.log) >= 16 {
				for i := 8; i < 15; i++ {
					rt.Assume(data[p+i] == 0)
				}
				rt.Assume(data[p+15] <= 24)
			}
		}
		done = r.run(1) || r.bad
	}
	if !done && int(r.pos) < len(data) {
		return
	}
	br := NewBoxReader(jxlio.NewBitStreamReader(bytes.NewReader(data)))
	boxes, err := br.ReadBoxHeader()
	c01Compare(r, boxes, err, br.level)
}

// VH_C01_Bare: anything that does not start with the signature is one codestream at offset 0.
func VH_C01_Bare() {
	data := rt.Bytes(14)
	var diff byte
	for i, b := range []byte{0, 0, 0, 12, 'J', 'X', 'L', ' ', 13, 10, 0x87, 10} {
		diff |= data[i] ^ b
	}
	rt.Assume(diff != 0)
	br := NewBoxReader(jxlio.NewBitStreamReader(bytes.NewReader(data)))
	boxes, err := br.ReadBoxHeader()
	rt.Assert(err == nil && len(boxes) == 1 && boxes[0].Offset == 0 && boxes[0].BoxType == 0x6a786c63, "a bare codestream starts at offset 0")
	rt.Reach("bare")
}
