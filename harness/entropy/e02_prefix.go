package entropy

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: code tables from every vector of 2..4 code lengths 0..4 (thorough 5) and every following bit pattern; simple prefix codes for alphabets of 1..6, 17 and 256 symbols, all bits symbolic; complex codes for alphabets of 2..5 symbols with every code-length code over the first 3 code-length symbols (thorough 5) and every code-length sequence of up to 5 entries, and repeat codes for alphabets of up to 24 symbols; all symbols decoded back with all shorter remainders of input
// outside: larger alphabets with arbitrary lengths, lengths above 5 in symbolic vectors (lengths up to 15 in fixed shapes)

// e02Decode reads one symbol of a code given by lengths from the reference reader.
func e02Decode(r *rt.RefReader, lens []int, codes []uint32) int {
	code := uint32(0)
	for l := 1; l <= 15; l++ {
		code = code<<1 | uint32(r.U(1))
		if r.Bad {
			return -1
		}
		for s := range lens {
			if lens[s] == l && codes[s] == code {
				return s
			}
		}
	}
	r.Bad = true
	return -1
}

func e02Table(n, maxLen, extra int) {
	lens := make([]int, n)
	sum := 0
	for i := range lens {
		lens[i] = rt.Concrete(rt.Int(0, maxLen))
		if lens[i] > 0 {
			sum += 1 << uint(maxLen-lens[i])
		}
	}
	// the table is given by increasing length, symbols in order within a length
	var l32, s32 []int32
	for l := 0; l <= maxLen; l++ {
		for s := range lens {
			if lens[s] == l {
				l32 = append(l32, int32(l))
				s32 = append(s32, int32(10+s))
			}
		}
	}
	t, err := NewVLCTableWithSymbols(int32(maxLen), l32, s32)
	codes, ok := refCanonical(lens)
	if !ok {
		rt.Assert(err != nil, "an over- or underfull code is rejected")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a complete code is accepted")
	data := rt.Bytes(1)
	r := &rt.RefReader{D: data}
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	skip := rt.Concrete(rt.Int(0, 7))
	br.ReadBits(uint32(skip))
	r.U(skip)
	want := e02Decode(r, lens, codes)
	got, err := t.GetVLC(br)
	if r.Bad {
		rt.Assert(err != nil, "a code cut short is an error")
		rt.Reach("short")
		return
	}
	rt.Assert(err == nil && int(got) == 10+want, "the symbol whose code is in the stream is returned")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the code's bits are consumed")
	rt.Reach("ok")
}

func VH_E02_Table() {
	if rt.Thorough() {
		e02Table(rt.Concrete(rt.Int(2, 4)), 5, 0)
	} else {
		e02Table(rt.Concrete(rt.Int(2, 4)), 3, 0)
	}
}

type e02Code struct {
	lens  []int
	codes []uint32
	one   int // symbol of a zero-bit code, or -1
	bad   bool
}

func (c *e02Code) finish() {
	ok := false
	c.codes, ok = refCanonical(c.lens)
	if !ok {
		c.bad = true
	}
}

func (c *e02Code) read(r *rt.RefReader) int {
	if c.one >= 0 {
		return c.one
	}
	return e02Decode(r, c.lens, c.codes)
}

func e02Simple(r *rt.RefReader, size int) (c e02Code) {
	c.one = -1
	c.lens = make([]int, size)
	n := rt.Concrete(int(r.U(2))) + 1
	var sym [4]int
	w := bitLen(uint64(size - 1))
	for i := 0; i < n; i++ {
		sym[i] = int(r.U(w))
		if r.Bad {
			return
		}
		if sym[i] >= size {
			c.bad = true
			return
		}
		sym[i] = rt.Concrete(sym[i])
		for j := 0; j < i; j++ {
			if sym[i] == sym[j] {
				c.bad = true
				return
			}
		}
	}
	l := [][]int{nil, {0}, {1, 1}, {1, 2, 2}, {2, 2, 2, 2}}[n]
	if n == 4 && r.Bool() {
		l = []int{1, 2, 3, 3}
	}
	if n == 1 {
		c.one = sym[0]
		return
	}
	for i := 0; i < n; i++ {
		c.lens[sym[i]] = l[i]
	}
	c.finish()
	return
}

var e02Order = []int{1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15}

// e02CodeLen reads a code-length code length: a fixed prefix code.
func e02CodeLen(r *rt.RefReader) int {
	switch r.U(2) {
	case 0:
		return 0
	case 1:
		return 4
	case 2:
		return 3
	}
	if r.U(1) == 0 {
		return 2
	}
	if r.U(1) == 0 {
		return 1
	}
	return 5
}

func e02Complex(r *rt.RefReader, size, skip int) (c e02Code) {
	c.one = -1
	cl := make([]int, 18)
	space, num := 32, 0
	last := 0
	for i := skip; i < 18 && space > 0; i++ {
		l := e02CodeLen(r)
		if r.Bad {
			return
		}
		cl[e02Order[i]] = l
		if l != 0 {
			space -= 32 >> uint(l)
			num++
			last = e02Order[i]
		}
	}
	if num != 1 && space != 0 {
		c.bad = true
		return
	}
	level := e02Code{lens: cl, one: -1}
	if num == 1 {
		level.one = last
	} else {
		level.codes, _ = refCanonical(cl)
	}
	c.lens = make([]int, size)
	prev, repeat, repLen := 8, 0, 0
	left := 1 << 15
	for s := 0; s < size && left > 0; {
		x := level.read(r)
		if r.Bad {
			return
		}
		if x < 16 {
			repeat = 0
			c.lens[s] = x
			s++
			if x != 0 {
				prev = x
				left -= 1 << uint(15-x)
			}
			continue
		}
		bits := x - 14
		nl := 0
		if x == 16 {
			nl = prev
		}
		if repLen != nl {
			repeat, repLen = 0, nl
		}
		old := repeat
		if repeat > 0 {
			repeat = (repeat - 2) << uint(bits)
		}
		repeat += rt.Concrete(int(r.U(bits))) + 3
		if r.Bad {
			return
		}
		if s+repeat-old > size {
			c.bad = true
			return
		}
		for k := old; k < repeat; k++ {
			c.lens[s] = nl
			s++
			if nl != 0 {
				left -= 1 << uint(15-nl)
			}
		}
	}
	if left != 0 {
		c.bad = true
		return
	}
	c.finish()
	return
}

func e02Check(data []byte, size int, suffix byte) {
	r := &rt.RefReader{D: data}
	var c e02Code
	if size == 1 {
		c = e02Code{one: 0}
	} else if skip := rt.Concrete(int(r.U(2))); skip == 1 {
		c = e02Simple(r, size)
	} else {
		c = e02Complex(r, size, skip)
	}
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	d, err := NewPrefixSymbolDistributionWithReader(br, int32(size))
	rt.Merge(false)
	if r.Bad || c.bad {
		rt.Assert(err != nil, "a truncated or invalid code description is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid code description is accepted")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the description's bits are consumed")
	// every symbol, followed by nothing, by zeros and by ones
	for s := 0; s < size; s++ {
		if !(c.one == s || c.one < 0 && c.lens[s] > 0) {
			continue
		}
		var sink bitSink
		n := 0
		if c.one < 0 {
			n = c.lens[s]
		}
		shift := (8 - n&7) & 7
		sink.put(0, shift)
		for i := 0; i < n; i++ {
			sink.put(uint64(c.codes[s]>>uint(n-1-i)), 1)
		}
		for tail := 0; tail < 3; tail++ {
			b := sink.bytes()
			if tail > 0 {
				v := byte(tail - 1)
				b = append(b, -v, -v, -v)
			}
			br = jxlio.NewBitStreamReader(bytes.NewReader(b))
			if shift > 0 {
				br.ReadBits(uint32(shift))
			}
			got, err := d.ReadSymbol(br, nil)
			rt.Assert(err == nil && int(got) == s, "every symbol is read back from its canonical code")
			rt.Assert(br.BitsRead() == uint64(shift+n), "exactly the code's bits are consumed")
		}
	}
	rt.Reach("ok")
}

func VH_E02_Simple() {
	size := []int{1, 2, 3, 4, 5, 6}[rt.Concrete(rt.Int(0, 5))]
	data := rt.Bytes(2)
	rt.Assume(data[0]&3 == 1 || size == 1)
	e02Check(data, size, 0)
}

// Wide alphabets: symbols are compared after construction only.
func VH_E02_SimpleWide() {
	size := []int{17, 256, 300}[rt.Concrete(rt.Int(0, 2))]
	data := rt.Bytes(3)
	rt.Assume(data[0]&3 == 1 && data[0]&12 == 4)
	r := &rt.RefReader{D: data, P: 4}
	w := bitLen(uint64(size - 1))
	a, b := int(r.U(w)), int(r.U(w))
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	rt.Merge(true)
	d, err := NewPrefixSymbolDistributionWithReader(br, int32(size))
	rt.Merge(false)
	if r.Bad || a >= size || b >= size || a == b {
		rt.Assert(err != nil, "a truncated or invalid code description is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid code description is accepted")
	v := rt.U8()
	got, err := d.ReadSymbol(jxlio.NewBitStreamReader(bytes.NewReader([]byte{v})), nil)
	want := min(a, b)
	if v&1 == 1 {
		want = max(a, b)
	}
	rt.Assert(err == nil && int(got) == want, "the smaller symbol has code 0, the larger one code 1")
	rt.Reach("ok")
}

func VH_E02_Short() {
	size := rt.Concrete(rt.Int(2, 3))
	e02Check(rt.Bytes(rt.Concrete(rt.Int(0, 1))), size, 0)
}

// Complex codes: every code-length code over the first few code-length symbols.
func VH_E02_Lengths() {
	size := 3
	if rt.Thorough() {
		size = rt.Concrete(rt.Int(2, 4))
	}
	var s bitSink
	s.put(0, 2)
	d := rt.Bytes(4)
	for i := 0; i < 32; i++ {
		s.b = append(s.b, d[i/8]>>uint(i&7)&1)
	}
	data := s.bytes()
	// lengths 1..4 and 0 only: the code is complete within the first five entries
	r := &rt.RefReader{D: data, P: 2}
	space, k := 32, 0
	for ; k < 5 && space > 0; k++ {
		if l := e02CodeLen(r); l != 0 {
			space -= 32 >> uint(l)
		}
	}
	rt.Assume(space == 0)
	if !rt.Thorough() {
		rt.Assume(d[3] == 0 && d[2] < 16)
	}
	if !rt.Thorough() {
		rt.Assume(k <= 3)
	}
	e02Check(data, size, 0)
}

// Complex codes with all kinds of code-length symbols for the given code-length code.
func e02Fixed(cl map[int]int, size, nbits int) {
	if rt.Thorough() {
		nbits += 5
	}
	var s bitSink
	s.put(0, 2)
	space := 32
	for i := 0; i < 18 && space > 0; i++ {
		l := cl[e02Order[i]]
		switch l {
		case 0:
			s.put(0, 2)
		case 1:
			s.put(7, 4)
		case 2:
			s.put(3, 3)
		case 3:
			s.put(2, 2)
		case 4:
			s.put(1, 2)
		case 5:
			s.put(15, 4)
		}
		if l > 0 {
			space -= 32 >> uint(l)
		}
	}
	d := rt.Bytes((nbits + 7) / 8)
	for i := 0; i < nbits; i++ {
		s.b = append(s.b, d[i/8]>>uint(i&7)&1)
	}
	e02Check(s.bytes(), size, 0)
}

func VH_E02_Repeat() {
	e02Fixed(map[int]int{16: 1, 17: 2, 3: 3, 8: 3}, []int{4, 7, 8}[rt.Concrete(rt.Int(0, 2))], 15)
}

func VH_E02_RepeatLong() {
	e02Fixed(map[int]int{16: 1, 4: 2, 5: 2}, []int{16, 24}[rt.Concrete(rt.Int(0, 1))], 12)
}

func VH_E02_Zeros() {
	e02Fixed(map[int]int{17: 1, 1: 2, 16: 2}, []int{11, 12, 20}[rt.Concrete(rt.Int(0, 2))], 12)
}

func VH_E02_SingleLength() {
	e02Fixed(map[int]int{rt.Concrete(rt.Int(0, 17)): 3}, []int{2, 4, 8, 16}[rt.Concrete(rt.Int(0, 3))], 8)
}

func VH_E02_Deep() {
	e02Fixed(map[int]int{15: 2, 14: 2, 1: 2, 2: 2}, rt.Concrete(rt.Int(2, 4)), 9)
}

// The deepest shape: lengths 1, 2, ..., 15, 15.
func VH_E02_Longest() {
	var lens []int
	for i := 1; i <= 15; i++ {
		lens = append(lens, i)
	}
	lens = append(lens, 15)
	var l32 []int32
	for _, l := range lens {
		l32 = append(l32, int32(l))
	}
	s := rt.Concrete(rt.Int(0, 15))
	t, err := NewVLCTableWithSymbols(15, l32, nil)
	rt.Assert(err == nil, "a complete code is accepted")
	codes, _ := refCanonical(lens)
	n := lens[s]
	var sink bitSink
	for i := 0; i < n; i++ {
		sink.put(uint64(codes[s]>>uint(n-1-i)), 1)
	}
	v := uint64(rt.Concrete(rt.Int(0, 1)) * 0xffff)
	sink.put(v, 16)
	br := jxlio.NewBitStreamReader(bytes.NewReader(sink.bytes()))
	got, err := t.GetVLC(br)
	rt.Assert(err == nil && int(got) == s && br.BitsRead() == uint64(n), "every symbol is read back from its canonical code")
}
