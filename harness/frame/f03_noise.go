package frame

import (
	"math"

	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: every pair of 64-bit seeds and every four 32-bit seeds; the first 40 numbers of each generator (thorough 200); noise groups of 1x1, 16x1, 17x2, 33x2 and 40x3 samples at any group position of a frame cut off at its right and lower edge, for every seed
// outside: adding the noise to the image (reported as not implemented)

// f03Ref is the format's generator: eight interleaved xorshift128+ generators.
type f03Ref struct {
	s0, s1, out [8]uint64
	pos         int
}

func f03Mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func f03New(a, b uint64) *f03Ref {
	r := &f03Ref{pos: 8}
	r.s0[0] = f03Mix(a + 0x9e3779b97f4a7c15)
	r.s1[0] = f03Mix(b + 0x9e3779b97f4a7c15)
	for i := 1; i < 8; i++ {
		r.s0[i] = f03Mix(r.s0[i-1])
		r.s1[i] = f03Mix(r.s1[i-1])
	}
	return r
}

func (r *f03Ref) next() uint64 {
	if r.pos == 8 {
		for i := range r.s0 {
			s1, s0 := r.s0[i], r.s1[i]
			r.out[i] = s0 + s1
			r.s0[i] = s0
			s1 ^= s1 << 23
			r.s1[i] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5)
		}
		r.pos = 0
	}
	v := r.out[r.pos]
	r.pos++
	return v
}

func f03Count() int {
	if rt.Thorough() {
		return 200
	}
	return 40
}

// VH_F03_TwoSeeds: the generator of two 64-bit seeds.
func VH_F03_TwoSeeds() {
	a, b := rt.U64(), rt.U64()
	r := f03New(a, b)
	x := NewXorShiroWith2Seeds(int64(a), int64(b))
	for i := 0; i < f03Count(); i++ {
		rt.Assert(x.nextLong() == r.next(), "the numbers are those of the format's generator")
	}
	rt.Reach("generated")
}

// VH_F03_FourSeeds: the generator of four 32-bit seeds.
func VH_F03_FourSeeds() {
	var s [4]uint32
	for i := range s {
		s[i] = rt.U32()
	}
	r := f03New(uint64(s[0])<<32|uint64(s[1]), uint64(s[2])<<32|uint64(s[3]))
	x := NewXorShiroWith4Seeds(int32(s[0]), int32(s[1]), int32(s[2]), int32(s[3]))
	for i := 0; i < f03Count(); i++ {
		rt.Assert(x.nextLong() == r.next(), "the numbers are those of the format's generator")
	}
	rt.Reach("generated")
}

// VH_F03_Fill: numbers are handed out as 32-bit halves, low half first.
func VH_F03_Fill() {
	a, b := rt.U64(), rt.U64()
	r := f03New(a, b)
	x := NewXorShiroWith2Seeds(int64(a), int64(b))
	for k := 0; k < f03Count()/8; k++ {
		bits := make([]int64, 16)
		x.fill(bits)
		for i := 0; i < 16; i += 2 {
			v := r.next()
			rt.Assert(uint32(bits[i]) == uint32(v) && uint32(bits[i+1]) == uint32(v>>32), "numbers are split into their halves")
		}
	}
	rt.Reach("filled")
}

// VH_F03_Group: the noise of a group.
func VH_F03_Group() {
	s := [][2]int{{1, 1}, {16, 1}, {17, 2}, {33, 2}, {40, 3}}[rt.Concrete(rt.Int(0, 4))]
	w, h := s[0], s[1]
	dim := 128
	gx, gy := rt.Concrete(rt.Int(0, 1)), rt.Concrete(rt.Int(0, 1))
	x0, y0 := gx*dim, gy*dim
	seed := rt.U64()
	header := &FrameHeader{groupDim: uint32(dim), Width: uint32(x0 + w), Height: uint32(y0 + h)}
	buf := make([][][]float32, 3)
	for c := range buf {
		buf[c] = make([][]float32, y0+h)
		for y := range buf[c] {
			buf[c][y] = make([]float32, x0+w)
		}
	}
	NewNoiseGroupWithHeader(header, int64(seed), buf, int32(x0), int32(y0))
	r := f03New(seed, uint64(x0)<<32|uint64(y0))
	for c := range buf {
		for y := 0; y < y0; y++ {
			for x := range buf[c][y] {
				rt.Assert(buf[c][y][x] == 0, "other groups are left alone")
			}
		}
		for y := y0; y < y0+h; y++ {
			for x := 0; x < x0; x++ {
				rt.Assert(buf[c][y][x] == 0, "other groups are left alone")
			}
			for x := 0; x < w; x += 16 {
				for i := 0; i < 16; i += 2 {
					v := r.next()
					for k := 0; k < 2; k++ {
						if x+i+k < w {
							b := math.Float32bits(buf[c][y][x0+x+i+k])
							rt.Assert(b == uint32(v)>>9|0x3f800000, "the noise is in [1,2) and in the format's order")
						}
						v >>= 32
					}
				}
			}
		}
	}
	rt.Reach("filled")
}
