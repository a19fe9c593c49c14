package bundle

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

type r01Bits struct{ b []byte }

func (s *r01Bits) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		s.b = append(s.b, byte(v>>uint(i)&1))
	}
}

// tail appends n arbitrary bits up to a byte boundary and n bytes after it.
func (s *r01Bits) tail(n int) []byte {
	free := (8 - len(s.b)%8) % 8
	v := rt.U8()
	for i := 0; i < free; i++ {
		s.b = append(s.b, v>>uint(i)&1)
	}
	out := make([]byte, len(s.b)/8)
	for i := range out {
		for j := 0; j < 8; j++ {
			out[i] |= s.b[8*i+j] << uint(j)
		}
	}
	return append(out, rt.Bytes(n)...)
}

func r01Image(data []byte) {
	level := int32(5)
	if rt.Thorough() {
		level *= int32(1 + rt.Concrete(rt.Int(0, 1)))
	}
	h, err := ParseImageHeader(jxlio.NewBitStreamReader(bytes.NewReader(data)), level)
	rt.Assert(err != nil || h != nil && h.ColourEncoding != nil && h.BitDepth != nil && h.ToneMapping != nil && h.OpsinInverseMatrix != nil, "a parsed header is complete")
	if err == nil {
		rt.Reach("parsed")
		h.GetColourChannelCount()
		h.GetColourModel()
		if h.XybEncoded {
			h.OpsinInverseMatrix.GetMatrix(h.ColourEncoding.Prim, h.ColourEncoding.White)
		}
	} else {
		rt.Reach("refused")
	}
}

func r01Bytes(lo, hi, thorough int) int {
	if rt.Thorough() {
		hi = thorough
	}
	return lo + rt.Concrete(rt.Int(0, hi-lo))
}

// bound: image headers: any 3 bytes after the signature, and any 1 to 2 bytes (thorough: one more) after the start of each of their parts
// VH_R01_Image: any bytes after the signature.
func VH_R01_Image() {
	var s r01Bits
	s.put(0x0aff, 16)
	r01Image(s.tail(r01Bytes(0, 3, 3)))
}

// VH_R01_Signature: any bytes at all.
func VH_R01_Signature() {
	var s r01Bits
	r01Image(s.tail(r01Bytes(0, 3, 3)))
}

func r01Start(extra bool) *r01Bits {
	s := &r01Bits{}
	s.put(0x0aff, 16)
	s.put(1, 1)
	s.put(3, 5)
	s.put(1, 3)
	s.put(0, 1)
	if extra {
		s.put(1, 1)
	} else {
		s.put(0, 1)
	}
	return s
}

// VH_R01_Fields: orientation, intrinsic size, preview, animation.
func VH_R01_Fields() { r01Image(r01Start(true).tail(r01Bytes(0, 2, 3))) }

// VH_R01_Extra: extra channels.
func VH_R01_Extra() {
	s := r01Start(false)
	s.put(0, 4) // 8 bits
	s.put(1, 2) // one channel
	r01Image(s.tail(r01Bytes(0, 1, 2)))
}

// VH_R01_Colour: colour encoding and what follows.
func VH_R01_Colour() {
	s := r01Start(false)
	s.put(0, 4)
	s.put(0, 2)
	r01Image(s.tail(r01Bytes(0, 1, 2)))
}

// VH_R01_Profile: an embedded profile.
func VH_R01_Profile() {
	s := r01Start(false)
	s.put(0, 4)
	s.put(0, 2)
	s.put(0, 1) // no XYB
	s.put(2, 2) // profile
	s.put(0, 2) // RGB
	s.put(0, 2) // no extensions
	s.put(1, 1) // default matrix
	r01Image(s.tail(r01Bytes(0, 1, 2)))
}

// VH_R01_Late: extensions, opsin matrix, upsampling weights.
func VH_R01_Late() {
	s := r01Start(true)
	s.put(0, 3+3) // nothing of that
	s.put(0, 4)
	s.put(0, 2)
	s.put(1, 2) // XYB, default encoding
	r01Image(s.tail(r01Bytes(0, 1, 2)))
}
