package jxlio

import (
	"bytes"
	"math"

	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: every bit pattern of each field, at bit alignments 0..7 (quick: 0,3,7), distribution parameters of U32 arbitrary (offsets up to 2^16, widths 0..32)

func nstart(n int) (*BitStreamReader, *rt.RefReader) {
	data := rt.Bytes(n)
	br := NewBitStreamReader(bytes.NewReader(data))
	a := 0
	if rt.Thorough() {
		a = rt.Concrete(rt.Int(0, 7))
	} else {
		a = []int{0, 3, 7}[rt.Concrete(rt.Int(0, 2))]
	}
	br.ReadBits(uint32(a))
	return br, &rt.RefReader{D: data, P: a}
}

func nend(br *BitStreamReader, r *rt.RefReader, err error) bool {
	if r.Bad {
		rt.Assert(err != nil, "a truncated field is an error")
		return false
	}
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the field's bits are consumed")
	return true
}

func VH_N01_U32() {
	br, r := nstart(6)
	u := [4]int{}
	c := [4]int{}
	for i := range u {
		c[i] = rt.Int(0, 65536)
	}
	sel := int(rt.RefBits(r.D, r.P, 2))
	sel = rt.Concrete(sel)
	u[sel] = rt.Concrete(rt.Int(0, 32))
	v, err := br.ReadU32(c[0], u[0], c[1], u[1], c[2], u[2], c[3], u[3])
	w := r.U32(c[0], u[0], c[1], u[1], c[2], u[2], c[3], u[3])
	if nend(br, r, err) {
		rt.Assert(err == nil && v == w, "U32 is offset plus field bits of the selected distribution")
		rt.Reach("u32")
	}
}

func VH_N01_U32Short() {
	br, r := nstart(2)
	v, err := br.ReadU32(5, 0, 1, 4, 7, 9, 100, 16)
	w := r.U32(5, 0, 1, 4, 7, 9, 100, 16)
	if nend(br, r, err) {
		rt.Assert(err == nil && v == w, "U32 value")
	} else {
		rt.Reach("truncated")
	}
}

func VH_N01_U64() {
	br, r := nstart(11)
	v, err := br.ReadU64()
	w := r.U64()
	if nend(br, r, err) {
		rt.Assert(err == nil && v == w, "U64 follows the format's variable-length definition")
		rt.Observe("v", v)
		if r.P > 72 {
			rt.Reach("longest")
		}
	}
}

func VH_N01_U64Short() {
	br, r := nstart(3)
	v, err := br.ReadU64()
	w := r.U64()
	if nend(br, r, err) {
		rt.Assert(err == nil && v == w, "U64 value")
	} else {
		rt.Reach("truncated")
	}
}

func VH_N01_U8() {
	br, r := nstart(3)
	v, err := br.ReadU8()
	var w int
	if r.U(1) == 1 {
		n := rt.Concrete(int(r.U(3)))
		w = 1<<uint(n) + int(r.U(n))
	}
	if nend(br, r, err) {
		rt.Assert(err == nil && v == w, "U8 follows the format's definition")
		rt.Reach("u8")
	}
}

func VH_N01_Enum() {
	br, r := nstart(3)
	v, err := br.ReadEnum()
	w, ok := r.Enum()
	if !ok {
		rt.Assert(err != nil, "enum values above 63 are rejected")
		rt.Reach("rejected")
		return
	}
	if nend(br, r, err) {
		rt.Assert(err == nil && v == int32(w), "enum value")
		rt.Reach("enum")
	}
}

func VH_N01_F16() {
	br, r := nstart(4)
	v, err := br.ReadF16()
	w := uint32(r.U(16))
	exp := w >> 10 & 31
	man := w & 1023
	rt.Concrete(int(w >> 15))
	if exp == 31 {
		rt.Assert(err != nil, "infinite and NaN half floats are rejected")
		rt.Reach("rejected")
		return
	}
	rt.Assert(br.BitsRead() == uint64(r.P), "16 bits are consumed")
	rt.Assert(err == nil, "finite half floats are accepted")
	if exp != 0 {
		rt.Assert(math.Float32bits(v) == w>>15<<31|(exp+112)<<23|man<<13, "normal half float has the same sign, exponent and mantissa")
		rt.Reach("normal")
		return
	}
	if man == 0 {
		rt.Assert(v == 0, "zero")
		return
	}
	// subnormal: mantissa * 2^-24; the scaled product is exact
	e := uint32(103)
	m := man
	for i := 0; i < 10; i++ {
		if m>>(9-uint(i))&1 == 1 {
			sh := uint(14 + i)
			rt.Assert(math.Float32bits(v) == w>>15<<31|(e+9-uint32(i))<<23|(m<<sh)&0x7fffff, "subnormal half float is exact")
			rt.Reach("subnormal")
			return
		}
	}
}

func VH_N01_UnpackSigned() {
	u := rt.U32()
	v := UnpackSigned(u)
	var w int64
	if u&1 == 0 {
		w = int64(u) / 2
	} else {
		w = -(int64(u) + 1) / 2
	}
	rt.Assert(int64(v) == w, "even maps to u/2, odd to -(u+1)/2")
	x := rt.U64()
	y := UnpackSigned64(x)
	// the inverse mapping recovers x
	var z uint64
	if y >= 0 {
		z = uint64(y) << 1
	} else {
		z = uint64(-(y+1))<<1 | 1
	}
	rt.Assert(z == x, "64-bit mapping is the inverse of zig-zag packing")
	rt.Reach("unpacked")
}

func VH_N01_ICCVarint() {
	br, r := nstart(7)
	v, err := br.ReadICCVarint()
	var w uint64
	for s := 0; s < 35; s += 7 {
		b := r.U(8)
		w |= b & 127 << uint(s)
		if b < 128 || r.Bad {
			break
		}
		if s == 28 {
			return // longer than any 32-bit value
		}
	}
	if w > 0x7fffffff {
		return // outside the 31-bit range of the result
	}
	if nend(br, r, err) {
		rt.Assert(err == nil && uint64(v) == w, "base-128 varint, least significant group first")
		rt.Reach("varint")
	}
}
