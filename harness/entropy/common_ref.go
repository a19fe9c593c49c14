package entropy

import (
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bitSink builds bit streams, least significant bit first.
type bitSink struct{ b []byte }

func (s *bitSink) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		s.b = append(s.b, byte(v>>uint(i)&1))
	}
}

func (s *bitSink) bytes() []byte {
	out := make([]byte, (len(s.b)+7)/8)
	for i := range out {
		for j := 0; j < 8 && 8*i+j < len(s.b); j++ {
			out[i] |= s.b[8*i+j] << uint(j)
		}
	}
	return out
}

// extraBits is a reader that hands out one field and records its width.
type extraBits struct {
	jxlio.BitReader
	v     uint64
	n     uint32
	calls int
}

func (e *extraBits) ReadBits(n uint32) (uint64, error) {
	e.n = n
	e.calls++
	return e.v, nil
}

type refConfig struct{ split, msb, lsb uint32 }

func bitLen(v uint64) int {
	n := 0
	for v > 0 {
		v >>= 1
		n++
	}
	return n
}

func refReadConfig(r *rt.RefReader, logAlpha uint32) (c refConfig, bad bool) {
	c.split = uint32(rt.Concrete(int(r.U(bitLen(uint64(logAlpha))))))
	if r.Bad || c.split == logAlpha {
		return
	}
	c.msb = uint32(rt.Concrete(int(r.U(bitLen(uint64(c.split))))))
	if r.Bad || c.msb > c.split {
		return c, true
	}
	c.lsb = uint32(r.U(bitLen(uint64(c.split - c.msb))))
	return c, c.msb+c.lsb > c.split
}

// refCanonical assigns canonical codes (most significant bit first) to lengths in symbol order;
// ok is false unless the code is complete.
func refCanonical(lens []int) (codes []uint32, ok bool) {
	sum := 0
	codes = make([]uint32, len(lens))
	next := uint32(0)
	for l := 1; l <= 15; l++ {
		next <<= 1
		for s, x := range lens {
			if x == l {
				codes[s] = next
				next++
				sum += 1 << uint(15-l)
			}
		}
	}
	return codes, sum == 1<<15
}
