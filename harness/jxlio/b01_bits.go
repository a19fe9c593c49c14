package jxlio

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: three consecutive reads of 0..64 bits (first 0..15, second 0..64 in coarse steps, third every width) over 22 arbitrary bytes
// bound: peeks of 0..64 bits and skips of 0..130 bits at every bit alignment 0..9, with 1..19 bytes of data
// bound: sequences of 3 (quick) or 4 (thorough) mixed single-purpose operations over 4 arbitrary bytes

func VH_B01_ReadBits() {
	n := 22
	data := rt.Bytes(n)
	br := NewBitStreamReader(bytes.NewReader(data))
	pos := 0
	for k := 0; k < 3; k++ {
		var b int
		switch k {
		case 0:
			b = rt.Concrete(rt.Int(0, 15))
		case 1:
			b = rt.Concrete(rt.Int(0, 14))
			if b > 9 {
				b = 4 + 4*b + b/14*4
			}
		default:
			b = rt.Concrete(rt.Int(0, 64))
		}
		v, err := br.ReadBits(uint32(b))
		rt.Assert(err == nil, "no error within the data")
		rt.Assert(v == rt.RefBits(data, pos, b), "value is the next bits, least significant first")
		pos += b
		rt.Assert(br.BitsRead() == uint64(pos), "bits read are counted")
		rt.Observe("v", v)
	}
	rt.Reach("three reads")
}

func VH_B01_PastEnd() {
	n := 1 + rt.Concrete(rt.Int(0, 9))
	data := rt.Bytes(n)
	br := NewBitStreamReader(bytes.NewReader(data))
	a := rt.Concrete(rt.Int(0, 9))
	b := rt.Concrete(rt.Int(0, 64))
	if a > 8*n {
		return
	}
	_, err := br.ReadBits(uint32(a))
	rt.Assert(err == nil, "no error within the data")
	v, err := br.ReadBits(uint32(b))
	if a+b > 8*n {
		rt.Assert(err != nil, "reading past the end is an error")
		rt.Reach("past end")
	} else {
		rt.Assert(err == nil && v == rt.RefBits(data, a, b), "data up to the very end is readable")
	}
}

func VH_B01_TooWide() {
	data := rt.Bytes(32)
	br := NewBitStreamReader(bytes.NewReader(data))
	w := rt.U32()
	rt.Assume(w > 64)
	_, err := br.ReadBits(w)
	rt.Assert(err != nil, "more than 64 bits at once is an error")
	v, err := br.ReadBits(9)
	rt.Assert(err == nil && v == rt.RefBits(data, 0, 9), "a rejected read consumes nothing")
}

func VH_B01_Peek() {
	n := 1 + rt.Concrete(rt.Int(0, 9))
	data := rt.Bytes(n)
	br := NewBitStreamReader(bytes.NewReader(data))
	a := rt.Concrete(rt.Int(0, 9))
	b := rt.Concrete(rt.Int(0, 64))
	if a > 8*n {
		return
	}
	br.ReadBits(uint32(a))
	v, err := br.ShowBits(b)
	if a+b <= 8*n {
		rt.Assert(err == nil && v == rt.RefBits(data, a, b), "peek shows the next bits")
		rt.Reach("peek inside")
	} else {
		rt.Assert(err != nil, "peek past the end is an error")
		rt.Reach("peek past end")
	}
	rt.Assert(br.BitsRead() == uint64(a), "peek does not count bits")
	if a < 8*n {
		m := 8*n - a
		if m > 17 {
			m = 17
		}
		w, err := br.ReadBits(uint32(m))
		rt.Assert(err == nil && w == rt.RefBits(data, a, m), "peek does not move the reader")
	} else {
		rt.Assert(br.AtEnd(), "at the end after the last bit")
	}
}

func VH_B01_Skip() {
	rt.Merge(true)
	n := 1 + rt.Concrete(rt.Int(0, 18))
	data := rt.Bytes(n)
	br := NewBitStreamReader(bytes.NewReader(data))
	a := rt.Concrete(rt.Int(0, 9))
	b := rt.Concrete(rt.Int(0, 43))
	if b >= 34 {
		b = 34 + (b-34)*10 + b%3
	}
	if a > 8*n {
		return
	}
	br.ReadBits(uint32(a))
	err := br.SkipBits(uint32(b))
	if a+b > 8*n {
		rt.Assert(err != nil, "skipping past the end is an error")
		return
	}
	rt.Assert(err == nil, "skip inside the data succeeds")
	rt.Assert(br.BitsRead() == uint64(a+b), "skipped bits are counted")
	m := 8*n - a - b
	if m > 19 {
		m = 19
	}
	w, err := br.ReadBits(uint32(m))
	rt.Assert(err == nil && w == rt.RefBits(data, a+b, m), "reading continues right after the skipped bits")
	rt.Reach("skipped")
}

func VH_B01_Mixed() {
	rt.Merge(true)
	k := 3
	if rt.Thorough() {
		k = 4
	}
	const n = 4
	data := rt.Bytes(n)
	br := NewBitStreamReader(bytes.NewReader(data))
	pos := 0
	start := rt.Concrete(rt.Int(0, 3)) * 7
	br.ReadBits(uint32(start))
	pos = start
	for i := 0; i < k; i++ {
		switch rt.Concrete(rt.Int(0, 8)) {
		case 0:
			v, err := br.ReadBool()
			if pos+1 > 8*n {
				rt.Assert(err != nil, "bool past the end is an error")
				return
			}
			rt.Assert(err == nil && v == (rt.RefBits(data, pos, 1) == 1), "bool is the next bit")
			pos++
		case 1:
			v, err := br.ReadByte()
			if pos+8 > 8*n {
				rt.Assert(err != nil, "byte past the end is an error")
				return
			}
			rt.Assert(err == nil && uint64(v) == rt.RefBits(data, pos, 8), "byte is the next 8 bits")
			pos += 8
		case 2:
			err := br.ZeroPadToByte()
			rt.Assert(err == nil, "aligning within the data succeeds")
			pos = (pos + 7) &^ 7
		case 3:
			v, err := br.ReadBytesUint64(2)
			if pos%8 != 0 || pos+16 > 8*n {
				rt.Assert(err != nil, "byte reads need alignment and data")
				return
			}
			rt.Assert(err == nil && v == rt.RefBits(data, pos, 16), "multi-byte read is little endian")
			pos += 16
			rt.Reach("multi-byte")
			// byte-wise reads are not part of the bit counter
			return
		case 4:
			_, err := br.Skip(1)
			if pos+8 > 8*n {
				rt.Assert(err != nil, "skip past the end is an error")
				return
			}
			rt.Assert(err == nil, "skip a byte")
			pos += 8
		case 5:
			at := br.AtEnd()
			rt.Assert(at == (pos == 8*n), "end of data is reported exactly at the last bit")
		case 6:
			v, err := br.ReadBits(3)
			if pos+3 > 8*n {
				rt.Assert(err != nil, "past the end is an error")
				return
			}
			rt.Assert(err == nil && v == rt.RefBits(data, pos, 3), "three bits")
			pos += 3
		case 7:
			v, err := br.ShowBits(11)
			if pos+11 > 8*n {
				rt.Assert(err != nil, "peek past the end is an error")
			} else {
				rt.Assert(err == nil && v == rt.RefBits(data, pos, 11), "peek")
			}
		case 8:
			err := br.SkipBits(13)
			if pos+13 > 8*n {
				rt.Assert(err != nil, "skip past the end is an error")
				return
			}
			rt.Assert(err == nil, "skip 13")
			pos += 13
		}
		rt.Assert(br.GetBitsCount() == uint64(pos), "position counter equals bits consumed")
	}
	rt.Reach("all operations")
}

// bound: byte skips of any 32-bit length over a stream of unbounded length
type endless struct{ pos int64 }

func (e *endless) Read(b []byte) (int, error) {
	e.pos += int64(len(b))
	return len(b), nil
}
func (e *endless) Seek(o int64, w int) (int64, error) { return e.pos, nil }

func VH_B01_SkipLarge() {
	e := &endless{}
	br := NewBitStreamReader(e)
	k := []uint32{0, 1, 255, 1 << 16, 1<<16 + 3}[rt.Concrete(rt.Int(0, 4))]
	n, err := br.Skip(k)
	rt.Assert(err == nil && n == int64(k), "skip reports the bytes skipped")
	rt.Assert(e.pos == int64(k), "skip consumes exactly that many bytes")
	rt.Assert(br.BitsRead() == uint64(k)*8, "skip counts the bits")
}

func VH_B01_ByteArrayAt() {
	data := rt.Bytes(6)
	br := NewBitStreamReader(bytes.NewReader(data))
	off := rt.Concrete(rt.Int(0, 6))
	l := rt.Concrete(rt.Int(0, 6))
	buf := make([]byte, 6)
	err := br.ReadByteArrayWithOffsetAndLength(buf, int64(off), uint32(l))
	if l > 0 && off+l > 6 {
		rt.Assert(err != nil, "a range past the end is an error")
		return
	}
	rt.Assert(err == nil, "a range inside the data is readable")
	for i := 0; i < l; i++ {
		rt.Assert(buf[i] == data[off+i], "bytes come from the requested offset")
	}
	rt.Reach("range read")
}
