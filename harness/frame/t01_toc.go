package frame

import (
	"bytes"
	"errors"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: permutations of up to 4 entries (thorough 6) with 0..2 skipped, every sequence of arbitrary 32-bit symbols; tables of up to 5 sections with all length fields symbolic (up to 22 byte tables) for every combination of 1..2 groups, 1 LF group and 1..2 passes; sections of 0..3 bytes with symbolic contents for every permutation of up to 4 sections; a permuted table of 4 sections read from a real entropy coded stream with symbolic symbols
// outside: tables with more sections; entropy coding variants of the permutation (E02..E05)

type t01Stream struct {
	entropy.EntropyStreamer
	syms []int32
	ctx  []int
	n    int
	fail int
}

func (s *t01Stream) ReadSymbol(reader jxlio.BitReader, context int) (int32, error) {
	if s.n == s.fail {
		return 0, errors.New("end")
	}
	rt.Assume(s.n < len(s.syms))
	s.ctx = append(s.ctx, context)
	s.n++
	return s.syms[s.n-1], nil
}

func t01Ctx(v uint64) int {
	n := 0
	for v > 0 && n < 7 {
		v >>= 1
		n++
	}
	return n
}

// t01Perm is the format's Lehmer code: entry i is the lehmer[i]-th remaining index.
func t01Perm(syms []uint32, size, skip uint32) (perm []uint32, ctx []int, bad bool) {
	end := syms[0]
	ctx = append(ctx, t01Ctx(uint64(size)))
	if end > size-skip {
		return nil, ctx, true
	}
	n := uint32(rt.Concrete(int(end)))
	var rest []uint32
	for i := uint32(0); i < size; i++ {
		rest = append(rest, i)
	}
	prev := uint32(0)
	for i := uint32(0); i < size; i++ {
		l := uint32(0)
		if i >= skip && i < skip+n {
			l = syms[1+i-skip]
			ctx = append(ctx, t01Ctx(uint64(prev)))
			if l >= size-i {
				return nil, ctx, true
			}
			l = uint32(rt.Concrete(int(l)))
			prev = l
		}
		perm = append(perm, rest[l])
		rest = append(append([]uint32{}, rest[:l]...), rest[l+1:]...)
	}
	return perm, ctx, false
}

func VH_T01_Permutation() {
	maxN := 4
	if rt.Thorough() {
		maxN = 6
	}
	size := uint32(rt.Concrete(rt.Int(1, maxN)))
	skip := uint32(rt.Concrete(rt.Int(0, 2)))
	rt.Assume(skip <= size)
	s := &t01Stream{fail: -1}
	var syms []uint32
	for i := uint32(0); i <= size-skip; i++ {
		v := rt.U32()
		syms = append(syms, v)
		s.syms = append(s.syms, int32(v))
	}
	want, ctx, bad := t01Perm(syms, size, skip)
	got, err := readPermutation(nil, s, size, skip)
	rt.Assert(len(ctx) == len(s.ctx), "exactly the coded entries are read")
	for i := range ctx {
		rt.Assert(ctx[i] == s.ctx[i], "each entry is read with the context of the previous one")
	}
	if bad {
		rt.Assert(err != nil, "an out of range Lehmer code is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil && len(got) == int(size), "a valid Lehmer code gives a permutation")
	seen := make([]bool, size)
	for i := range want {
		rt.Assert(got[i] == want[i], "the permutation is the one the Lehmer code defines")
		rt.Assert(!seen[want[i]], "the permutation is a bijection")
		seen[want[i]] = true
	}
	rt.Reach("ok")
}

// Larger permutations with only a few coded entries.
func VH_T01_PermutationLarge() {
	size := []uint32{16, 17, 35}[rt.Concrete(rt.Int(0, 2))]
	n := 1
	if rt.Thorough() {
		n = 2
	}
	s := &t01Stream{fail: -1}
	syms := []uint32{uint32(n)}
	for i := 0; i < n; i++ {
		syms = append(syms, rt.U32())
	}
	for _, v := range syms {
		s.syms = append(s.syms, int32(v))
	}
	want, _, bad := t01Perm(syms, size, 0)
	got, err := readPermutation(nil, s, size, 0)
	if bad {
		rt.Assert(err != nil, "an out of range Lehmer code is an error")
		return
	}
	rt.Assert(err == nil && len(got) == int(size), "a valid Lehmer code gives a permutation")
	for i := range want {
		rt.Assert(got[i] == want[i], "the permutation is the one the Lehmer code defines")
	}
	rt.Reach("ok")
}

func VH_T01_StreamError() {
	s := &t01Stream{fail: rt.Concrete(rt.Int(0, 2)), syms: []int32{2, 1, 0}}
	_, err := readPermutation(nil, s, 3, 0)
	rt.Assert(err != nil, "a failing symbol read is an error")
}

// bytesFor frames of the given group counts.
func t01Frame(data []byte, groups, lfGroups, passes uint32) *Frame {
	f := &Frame{numGroups: groups, numLFGroups: lfGroups, Header: &FrameHeader{passes: &PassesInfo{numPasses: passes}}}
	f.Header.Bounds = &util.Rectangle{}
	f.reader = jxlio.NewBitStreamReader(bytes.NewReader(data))
	return f
}

func t01Lengths(r *rt.RefReader, n int) (out []uint32) {
	for i := 0; i < n && !r.Bad; i++ {
		out = append(out, r.U32(0, 10, 1024, 14, 17408, 22, 4211712, 30))
	}
	r.P = (r.P + 7) / 8 * 8
	return
}

func t01CheckTOC(n int, groups, passes uint32, entries int) {
	data := rt.Bytes(n)
	f := t01Frame(data, groups, 1, passes)
	rt.Assume(n == 0 || data[0]&1 == 0)
	r := &rt.RefReader{D: data}
	r.U(1)
	r.P = (r.P + 7) / 8 * 8
	want := t01Lengths(r, entries)
	rt.Merge(true)
	err := f.ReadTOC()
	rt.Merge(false)
	if r.Bad {
		rt.Assert(err != nil, "a truncated table of contents is an error")
		rt.Reach("truncated")
		return
	}
	rt.Assert(err == nil, "a complete table of contents is accepted")
	rt.Assert(len(f.tocLengths) == entries, "one entry per section")
	for i := range want {
		rt.Assert(f.tocLengths[i] == want[i], "section lengths are those in the stream")
	}
	rt.Assert(f.reader.BitsRead() == uint64(r.P), "the reader is at the byte boundary after the table")
	rt.Reach("ok")
}

func VH_T01_TableSingle() { t01CheckTOC(rt.Concrete(rt.Int(0, 6)), 1, 1, 1) }

func VH_T01_TableTwoPasses() { t01CheckTOC(rt.Concrete(rt.Int(8, 22)), 1, 2, 5) }

func VH_T01_TableGroups() { t01CheckTOC(12, 2, 1, 5) }

// Sections are laid out one after the other and found through the permutation.
func VH_T01_Sections() {
	maxN := 3
	if rt.Thorough() {
		maxN = 4
	}
	n := rt.Concrete(rt.Int(2, maxN))
	var lens []uint32
	total := 0
	for i := 0; i < n; i++ {
		l := rt.Concrete(rt.Int(0, 3))
		lens = append(lens, uint32(l))
		total += l
	}
	short := rt.Concrete(rt.Int(0, 1))
	if total == 0 {
		short = 0
	}
	data := rt.Bytes(total - short)
	var perm []uint32
	if rt.Bool() {
		used := make([]bool, n)
		for i := 0; i < n; i++ {
			p := rt.Concrete(rt.Int(0, n-1))
			rt.Assume(!used[p])
			used[p] = true
			perm = append(perm, uint32(p))
		}
	}
	f := t01Frame(data, 2, 1, 1)
	f.tocLengths = lens
	f.tocPermutation = perm
	f.permutatedTOC = perm != nil
	err := f.setupBitReaders()
	if short > 0 {
		rt.Assert(err != nil, "a section cut short is an error")
		rt.Reach("short")
		return
	}
	rt.Assert(err == nil, "complete sections are read")
	for i := 0; i < n; i++ {
		at := i
		if perm != nil {
			at = int(perm[i])
		}
		off := 0
		for j := 0; j < at; j++ {
			off += int(lens[j])
		}
		br, err := f.getBitreader(i)
		rt.Assert(err == nil, "each section has a reader")
		for k := 0; k < int(lens[at]); k++ {
			v, err := br.ReadBits(8)
			rt.Assert(err == nil && byte(v) == data[off+k], "each section's reader yields the section's bytes")
		}
	}
	rt.Reach("ok")
}

func VH_T01_Skip() {
	n := rt.Concrete(rt.Int(1, 3))
	total := 0
	var lens []uint32
	for i := 0; i < n; i++ {
		l := rt.Concrete(rt.Int(0, 3))
		lens = append(lens, uint32(l))
		total += l
	}
	data := rt.Bytes(total + 1)
	f := t01Frame(data, 2, 1, 1)
	f.tocLengths = lens
	rt.Assert(f.SkipFrameData() == nil, "a frame's data can be skipped")
	v, err := f.reader.ReadBits(8)
	rt.Assert(err == nil && byte(v) == data[total], "skipping a frame leaves the reader right after its last section")
}

// A permuted table: prefix coded permutation of four sections with codes of two bits.
func VH_T01_Permuted() {
	bits := []byte{}
	put := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			bits = append(bits, byte(v>>uint(i)&1))
		}
	}
	put(1, 1)  // permuted
	put(0, 1)  // no LZ77
	put(1, 1)  // simple cluster map
	put(0, 2)  // of zero bits
	put(1, 1)  // prefix codes
	put(15, 4) // split exponent 15: tokens are values
	put(1, 1)  // alphabet size given
	put(2, 4)
	put(0, 2) // 1 + (1<<2) + 0 = 5
	put(1, 2) // simple prefix code
	put(3, 2) // four symbols
	for i := 0; i < 4; i++ {
		put(uint64(i), 3)
	}
	put(0, 1) // all of two bits
	k := len(bits)
	d := rt.Bytes(2)
	for i := 0; i < 10; i++ {
		bits = append(bits, d[i/8]>>uint(i%8)&1)
	}
	sym := func(i int) uint32 {
		return uint32(bits[k+2*i])<<1 | uint32(bits[k+2*i+1])
	}
	var syms []uint32
	for i := 0; i < 5; i++ {
		syms = append(syms, sym(i))
	}
	syms[0] = uint32(rt.Concrete(int(syms[0])))
	want, _, bad := t01Perm(syms, 4, 0)
	if !bad {
		for i := 1; i <= int(syms[0]); i++ {
			rt.Concrete(int(syms[i]))
		}
	}
	k += 2 * (1 + int(syms[0]))
	for len(bits) < (k+7)/8*8 {
		bits = append(bits, 0)
	}
	data := make([]byte, (k+7)/8)
	for i := range data {
		for j := 0; j < 8; j++ {
			if 8*i+j < k {
				data[i] |= bits[8*i+j] << uint(j)
			}
		}
	}
	for i := 0; i < 6; i++ {
		data = append(data, byte(4*(i+1)), 0) // lengths are 10 bits, see below
	}
	f := t01Frame(data, 1, 1, 1)
	f.Header.passes.numPasses = 1
	f.numGroups = 1
	f.numLFGroups = 1
	f.Header.passes.numPasses = 1
	// one pass over one group would be a single section; use the smallest table with four
	f.numGroups, f.numLFGroups = 2, 0
	err := f.ReadTOC()
	if bad {
		rt.Assert(err != nil, "an out of range Lehmer code is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a permuted table is accepted")
	rt.Assert(len(f.tocPermutation) == 4, "the permutation has one entry per section")
	for i := range want {
		rt.Assert(f.tocPermutation[i] == want[i], "the permutation is the one the Lehmer code defines")
	}
	rt.Assert(f.reader.BitsRead() == uint64((k+7)/8*8+48), "the reader is right after the table")
	rt.Reach("ok")
}
