package rt

// Reference helpers shared by harnesses (interpreted symbolically as ordinary code).

// RefBits is the value of n bits starting at bit position pos, least significant
// bit first, computed arithmetically from the bytes.
func RefBits(data []byte, pos, n int) uint64 {
	var v uint64
	for i := 0; i < n; {
		q := pos + i
		k := 8 - q&7
		if k > n-i {
			k = n - i
		}
		x := data[q>>3]
		if k < 8 {
			x = (x >> uint(q&7)) & uint8(1<<uint(k)-1)
		}
		v |= uint64(x) << uint(i)
		i += k
	}
	return v
}

// RefReader is a bit cursor over bytes.
type RefReader struct {
	D   []byte
	P   int
	Bad bool
}

func (r *RefReader) Left() int { return len(r.D)*8 - r.P }

func (r *RefReader) U(n int) uint64 {
	if r.Bad || r.P+n > len(r.D)*8 {
		r.Bad = true
		return 0
	}
	v := RefBits(r.D, r.P, n)
	r.P += n
	return v
}

func (r *RefReader) Bool() bool { return r.U(1) == 1 }

// U32 per the JPEG XL field definition: distribution d chosen by two bits.
func (r *RefReader) U32(c0, u0, c1, u1, c2, u2, c3, u3 int) uint32 {
	switch r.U(2) {
	case 0:
		return uint32(c0) + uint32(r.U(u0))
	case 1:
		return uint32(c1) + uint32(r.U(u1))
	case 2:
		return uint32(c2) + uint32(r.U(u2))
	case 3:
		return uint32(c3) + uint32(r.U(u3))
	}
	return 0
}

func (r *RefReader) U64() uint64 {
	switch r.U(2) {
	case 0:
		return 0
	case 1:
		return 1 + r.U(4)
	case 2:
		return 17 + r.U(8)
	}
	v := r.U(12)
	for s := 12; r.U(1) == 1 && !r.Bad; s += 8 {
		if s == 60 {
			v |= r.U(4) << 60
			break
		}
		v |= r.U(8) << uint(s)
	}
	return v
}

func (r *RefReader) Enum() (uint32, bool) {
	v := r.U32(0, 0, 1, 0, 2, 4, 18, 6)
	return v, v <= 63
}

// SliceStream is an in-memory io.ReadSeeker used as input.
type SliceStream struct {
	D []byte
	P int64
}

type eof struct{}

func (eof) Error() string { return "EOF" }

// EOFErr is returned at the end of a SliceStream.
var EOFErr error = eof{}

func (s *SliceStream) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.P >= int64(len(s.D)) {
		return 0, EOFErr
	}
	n := copy(b, s.D[s.P:])
	s.P += int64(n)
	return n, nil
}

func (s *SliceStream) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		s.P = off
	case 1:
		s.P += off
	case 2:
		s.P = int64(len(s.D)) + off
	}
	return s.P, nil
}

// BE is the big-endian value of up to 8 bytes.
func BE(b []byte) uint64 {
	var v uint64
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v
}
