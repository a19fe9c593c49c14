package entropy

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: simple distribution descriptions of up to 2 bytes, and of 3 bytes for about 1 in 7 (thorough all) of the probabilities, every flat one; complex descriptions of alphabets of 3..4 symbols (thorough 5) with every log count and population bit pattern, and run lengths in alphabets of up to 12; alias tables for every split of 4096 between 2 symbols, and between 3 symbols in multiples of 16 plus a remainder (thorough: any), for table sizes 32 and 64 (thorough 256); state update for every 32-bit state and every refill value over several tables
// outside: larger alphabets of arbitrary frequencies

// e03Alias is the format's alias mapping.
type e03Alias struct {
	cut, sym, off []int
	bucket        int
}

func e03Ref(freq []int, logAlpha int) (a e03Alias) {
	size := 1 << uint(logAlpha)
	a.bucket = 4096 / size
	a.cut, a.sym, a.off = make([]int, size), make([]int, size), make([]int, size)
	for s, f := range freq {
		if f == 4096 {
			for i := range a.sym {
				a.sym[i] = s
				a.off[i] = i * a.bucket
			}
			return
		}
	}
	var over, under []int
	for i := 0; i < size; i++ {
		if i < len(freq) {
			a.cut[i] = freq[i]
		}
		if a.cut[i] > a.bucket {
			over = append(over, i)
		} else if a.cut[i] < a.bucket {
			under = append(under, i)
		}
	}
	for len(over) > 0 {
		o, u := over[len(over)-1], under[len(under)-1]
		over, under = over[:len(over)-1], under[:len(under)-1]
		a.cut[o] -= a.bucket - a.cut[u]
		a.sym[u] = o
		a.off[u] = a.cut[o]
		if a.cut[o] < a.bucket {
			under = append(under, o)
		} else if a.cut[o] > a.bucket {
			over = append(over, o)
		}
	}
	for i := range a.cut {
		if a.cut[i] == a.bucket {
			a.cut[i], a.sym[i], a.off[i] = 0, i, 0
		} else {
			a.off[i] -= a.cut[i]
		}
	}
	return
}

func (a *e03Alias) look(x int) (sym, off int) {
	i, pos := x/a.bucket, x%a.bucket
	if pos >= a.cut[i] {
		return a.sym[i], a.off[i] + pos
	}
	return i, pos
}

// e03Slot reads the symbol of a state slot through the decoder: with an upper part of 2^16 the
// new state is frequency * 2^16 + offset and no refill happens.
func e03Slot(d *ANSSymbolDistribution, slot int, freq []int) (sym, off int) {
	st := &ANSState{}
	const hi = 1 << 16
	st.SetState(int32(hi<<12 | slot))
	s, err := d.ReadSymbol(nil, st)
	rt.Assert(err == nil, "a symbol is read")
	rt.Assert(s >= 0 && int(s) < len(freq), "symbols are within the alphabet")
	return int(s), int(int64(uint32(st.State)) - int64(freq[s])*hi)
}

// e03Mapping checks the alias table of a distribution against the format and the shares.
func e03Mapping(d *ANSSymbolDistribution, freq []int, logAlpha int, exact bool) {
	a := e03Ref(freq, logAlpha)
	x := rt.Int(0, 4095)
	bucket := rt.Concrete(x >> uint(12-logAlpha))
	x = bucket<<uint(12-logAlpha) | x&(1<<uint(12-logAlpha)-1)
	s, o := e03Slot(d, x, freq)
	ws, wo := a.look(x)
	rt.Assert(s == ws && o == wo, "every state slot maps to the symbol and offset the format defines")
	rt.Assert(o >= 0 && o < freq[s], "offsets are within the symbol's share")
	rt.Reach("slot")
}

func e03Dist(freq []int, logAlpha int) *ANSSymbolDistribution {
	// the description of a distribution with two symbols is read from a stream
	d := &ANSSymbolDistribution{}
	d.logAlphabetSize = int32(logAlpha)
	d.alphabetSize = int32(len(freq))
	d.frequencies = make([]int32, len(freq))
	uniq := int32(-1)
	for i, f := range freq {
		d.frequencies[i] = int32(f)
		if f == 4096 {
			uniq = int32(i)
		}
	}
	d.generateAliasMapping(uniq)
	return d
}

func e03Log() int {
	if rt.Thorough() {
		return 5 + rt.Concrete(rt.Int(0, 3))
	}
	return 5
}

// Two symbols with any split of 4096.
func VH_E03_AliasTwo() {
	l := e03Log()
	f := rt.Int(0, 4096)
	freq := []int{f, 4096 - f}
	e03Mapping(e03Dist(freq, l), freq, l, true)
}

// The share of each symbol is covered one-to-one: two slots never agree on symbol and offset.
func VH_E03_OneToOne() {
	f := rt.Int(0, 4096)
	freq := []int{f, 4096 - f}
	if rt.Thorough() {
		g := rt.Int(0, 4096)
		rt.Assume(g <= freq[1])
		rt.Assume(g&63 == 7)
		freq = []int{f, g, freq[1] - g}
	}
	d := e03Dist(freq, 5)
	x, y := rt.Int(0, 4095), rt.Int(0, 4095)
	sx, ox := e03Slot(d, x, freq)
	sy, oy := e03Slot(d, y, freq)
	rt.Assert(x == y || sx != sy || ox != oy, "no two slots share symbol and offset")
	rt.Assert(ox >= 0 && ox < freq[sx], "offsets are within the symbol's share")
}

func VH_E03_AliasThree() {
	f, g := rt.Int(0, 4096), rt.Int(0, 4096)
	rt.Assume(f+g <= 4096)
	if !rt.Thorough() {
		rt.Assume(f&511 == 15 && g&255 == 16)
	}
	freq := []int{f, g, 4096 - f - g}
	e03Mapping(e03Dist(freq, 5), freq, 5, true)
}

func e03Var8(r *rt.RefReader) int {
	if r.U(1) == 0 {
		return 0
	}
	n := rt.Concrete(int(r.U(3)))
	return 1<<uint(n) + int(r.U(n))
}

type e03Desc struct {
	freq []int
	bad  bool
}

func e03Parse(r *rt.RefReader, logAlpha, maxAlpha int) (d e03Desc) {
	if r.Bool() {
		if r.Bool() {
			a := e03Var8(r)
			b := e03Var8(r)
			if r.Bad {
				return
			}
			if a == b || a >= 1<<uint(logAlpha) || b >= 1<<uint(logAlpha) {
				d.bad = true
				return
			}
			a, b = rt.Concrete(a), rt.Concrete(b)
			rt.Assume(max(a, b) < maxAlpha)
			d.freq = make([]int, max(a, b)+1)
			d.freq[a] = int(r.U(12))
			d.freq[b] = 4096 - d.freq[a]
			return
		}
		x := e03Var8(r)
		if r.Bad {
			return
		}
		if x >= 1<<uint(logAlpha) {
			d.bad = true
			return
		}
		x = rt.Concrete(x)
		d.freq = make([]int, x+1)
		d.freq[x] = 4096
		return
	}
	if r.Bool() {
		n := e03Var8(r) + 1
		if r.Bad {
			return
		}
		if n > 1<<uint(logAlpha) {
			d.bad = true
			return
		}
		n = rt.Concrete(n)
		d.freq = make([]int, n)
		for i := range d.freq {
			d.freq[i] = 4096 / n
			if i < 4096%n {
				d.freq[i]++
			}
		}
		return
	}
	k := 0
	for k < 3 && r.U(1) == 1 {
		k++
	}
	shift := int(r.U(k)) + 1<<uint(k) - 1
	if r.Bad {
		return
	}
	if shift > 13 {
		d.bad = true
		return
	}
	shift = rt.Concrete(shift)
	n := e03Var8(r) + 3
	if r.Bad {
		return
	}
	if n > 1<<uint(logAlpha) {
		d.bad = true
		return
	}
	rt.Assume(n <= maxAlpha)
	n = rt.Concrete(n)
	logs := make([]int, n)
	same := make([]int, n)
	omit, omitLog := -1, -1
	for i := 0; i < n; i++ {
		l := e03Log13(r)
		if r.Bad {
			return
		}
		logs[i] = l
		if l == 13 {
			run := rt.Concrete(e03Var8(r))
			if r.Bad {
				return
			}
			same[i] = run + 5
			i += run + 3
			continue
		}
		if l > omitLog {
			omit, omitLog = i, l
		}
	}
	if omit < 0 || omit+1 < n && logs[omit+1] == 13 {
		d.bad = true
		return
	}
	d.freq = make([]int, n)
	total, left, prev := 0, 0, 0
	for i := 0; i < n; i++ {
		if same[i] > 0 {
			left = same[i] - 1
			prev = 0
			if i > 0 {
				prev = d.freq[i-1]
			}
		}
		if left > 0 {
			d.freq[i] = prev
			left--
		} else if i == omit || logs[i] == 0 {
			continue
		} else if logs[i] == 1 {
			d.freq[i] = 1
		} else {
			c := logs[i] - 1
			b := min(c, shift-(12-c)/2)
			if b < 0 {
				b = 0
			}
			d.freq[i] = 1<<uint(c) + int(r.U(b))<<uint(c-b)
		}
		if r.Bad {
			return
		}
		total += d.freq[i]
	}
	if total >= 4096 {
		d.bad = true
		return
	}
	d.freq[omit] = 4096 - total
	return
}

// The code of log counts: canonical code of these lengths, codes given least significant bit first.
var e03LogCodes = []struct{ code, n, v int }{
	{0, 3, 10}, {4, 3, 6}, {2, 3, 7}, {5, 3, 8}, {6, 3, 9}, {3, 4, 3}, {9, 4, 4}, {7, 4, 5}, {15, 4, 2}, {11, 4, 1}, {17, 5, 0}, {33, 6, 11}, {1, 7, 12}, {65, 7, 13},
}

func e03Log13(r *rt.RefReader) int {
	v := 0
	for n := 1; n <= 7; n++ {
		v |= int(r.U(1)) << uint(n-1)
		if r.Bad {
			return -1
		}
		v = rt.Concrete(v)
		for _, c := range e03LogCodes {
			if c.n == n && c.code == v {
				return c.v
			}
		}
	}
	return -1
}

func e03Check(data []byte, logAlpha, maxAlpha int, mapping bool) {
	r := &rt.RefReader{D: data}
	d := e03Parse(r, logAlpha, maxAlpha)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	h, err := NewANSSymbolDistribution(br, int32(logAlpha))
	if r.Bad || d.bad {
		rt.Assert(err != nil, "a truncated or invalid distribution is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid distribution is accepted")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the description's bits are consumed")
	sum := 0
	for _, f := range d.freq {
		sum += f
	}
	rt.Assert(sum == 4096, "frequencies sum to 4096")
	// frequency of the symbol in each slot, and the slot's symbol
	if mapping {
		e03Mapping(h, d.freq, logAlpha, false)
	} else {
		rt.Assert(len(h.frequencies) == len(d.freq), "one frequency per symbol")
		for i := range d.freq {
			rt.Assert(int(h.frequencies[i]) == d.freq[i], "frequencies are those the format defines")
		}
	}
	rt.Reach("ok")
}

func VH_E03_Simple() {
	data := rt.Bytes(rt.Concrete(rt.Int(0, 3)))
	rt.Assume(len(data) == 0 || data[0]&1 == 1)
	rt.Assume(rt.Thorough() || len(data) < 3 || data[1]&0x1c == 0x14 || data[1] < 4 || data[1] > 0xfb)
	e03Check(data, 5, 32, false)
}

func VH_E03_MappingOfTwo() {
	ab := [][2]uint64{{0, 1}, {2, 0}, {1, 3}}[rt.Concrete(rt.Int(0, 2))]
	var t bitSink
	t.put(3, 2)
	for _, v := range ab {
		if v == 0 {
			t.put(0, 1)
			continue
		}
		k := bitLen(v) - 1
		t.put(1, 1)
		t.put(uint64(k), 3)
		t.put(v-1<<uint(k), k)
	}
	f := rt.U16()
	if !rt.Thorough() {
		rt.Assume(f&15 == 0 || f&1023 == 3 || f>>5 == 127)
	}
	for i := 0; i < 12; i++ {
		t.b = append(t.b, byte(f>>uint(i)&1))
	}
	e03Check(t.bytes(), 5, 32, true)
}

func VH_E03_SingleMapping() {
	data := rt.Bytes(2)
	rt.Assume(data[0]&3 == 1)
	e03Check(data, 5, 32, true)
}

func VH_E03_Flat() {
	data := rt.Bytes(2)
	rt.Assume(data[0]&3 == 2)
	e03Check(data, 5+rt.Concrete(rt.Int(0, 3)), 256, false)
}

func VH_E03_FlatMapping() {
	n := []int{1, 2, 3, 7, 31, 32}[rt.Concrete(rt.Int(0, 5))] - 1
	var s bitSink
	s.put(2, 2)
	if n == 0 {
		s.put(0, 1)
	} else {
		k := bitLen(uint64(n)) - 1
		s.put(1, 1)
		s.put(uint64(k), 3)
		s.put(uint64(n-1<<uint(k)), k)
	}
	e03Check(s.bytes(), 5, 256, true)
}

// e03Logs appends log counts chosen among a few, in the format's code.
func e03Logs(s *bitSink, n int, from ...int) {
	for i := 0; i < n; i++ {
		v := from[rt.Concrete(rt.Int(0, len(from)-1))]
		for _, c := range e03LogCodes {
			if c.v == v {
				s.put(uint64(c.code), c.n)
			}
		}
	}
}

func e03Tail(s *bitSink, n int) {
	d := rt.U32()
	for i := 0; i < n; i++ {
		s.b = append(s.b, byte(d>>uint(i)&1))
	}
	s.put(0, 8)
}

// Complex descriptions of three symbols: every log count of one symbol.
func VH_E03_Complex() {
	var s bitSink
	s.put(0, 2)
	switch rt.Concrete(rt.Int(0, 2)) {
	case 0:
		s.put(0, 1) // shift 0
	case 1:
		s.put(3, 3) // shift 3
		s.put(0, 2)
	case 2:
		s.put(7, 3) // shift 12
		s.put(5, 3)
	}
	s.put(0, 1)
	p := rt.Concrete(rt.Int(0, 2))
	for i := 0; i < 3; i++ {
		if i == p {
			e03Logs(&s, 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
		} else if rt.Thorough() {
			e03Logs(&s, 1, 3, 11)
		} else {
			e03Logs(&s, 1, []int{3, 11, 4}[i])
		}
	}
	e03Tail(&s, 24)
	e03Check(s.bytes(), 5, 4, false)
}

// The code of log counts, the shift and the alphabet size, as raw bits.
func VH_E03_LogCode() {
	data := rt.Bytes(4)
	rt.Assume(data[0]&15 == 0 && data[2]&0x3f == 0 && data[3] == 0)
	e03Check(data, 5, 3, false)
}

func VH_E03_Shift() {
	data := rt.Bytes(5)
	rt.Assume(data[0]&3 == 0 && data[3] == 0x55 && data[4] == 0)
	if !rt.Thorough() {
		rt.Assume(data[2] == 0x33)
	}
	r := &rt.RefReader{D: data, P: 2}
	k := 0
	for k < 3 && r.U(1) == 1 {
		k++
	}
	rt.Assume(data[1] == 0x88)
	e03Check(data, 5, 4, false)
}

func VH_E03_ComplexMapping() {
	var s bitSink
	s.put(0, 2)
	s.put(0, 1)
	s.put(0, 1)
	e03Logs(&s, 3, 1, 5, 11)
	s.put(0, 8)
	e03Check(s.bytes(), 5, 3, true)
}

func VH_E03_ComplexFour() {
	var s bitSink
	s.put(0, 2)
	s.put(0, 1) // shift 0
	s.put(1, 1)
	s.put(0, 3) // four symbols
	e03Logs(&s, 4, 0, 1, 4, 11)
	e03Tail(&s, 8)
	e03Check(s.bytes(), 5, 4, false)
}

// Run lengths.
func VH_E03_Runs() {
	n := []int{3, 6, 9, 12}[rt.Concrete(rt.Int(0, 3))] - 3
	var s bitSink
	s.put(0, 2)
	s.put(0, 1)
	if n == 0 {
		s.put(0, 1)
	} else {
		k := bitLen(uint64(n)) - 1
		s.put(1, 1)
		s.put(uint64(k), 3)
		s.put(uint64(n-1<<uint(k)), k)
	}
	// first symbol 3, then a run, then anything short
	s.put(3, 4)
	s.put(65, 7)
	// the run: 4, 5, 6, 7 or, too long for the smaller alphabets, more
	e03Tail(&s, 5)
	e03Logs(&s, 2, 2, 11, 13)
	s.put(0, 40)
	e03Check(s.bytes(), 5, 12, false)
}

func VH_E03_Truncated() {
	data := rt.Bytes(rt.Concrete(rt.Int(1, 2)))
	rt.Assume(data[0]&3 == 0)
	e03Check(data, 5, 3, false)
}

// State update: the state after reading is what the format defines, with a refill exactly when needed.
func VH_E03_State() {
	freqs := [][]int{{4096}, {1, 4095}, {2048, 2048}, {100, 3000, 996}, {0, 4090, 3, 3}}
	freq := freqs[rt.Concrete(rt.Int(0, len(freqs)-1))]
	d := e03Dist(freq, 5)
	a := e03Ref(freq, 5)
	have := rt.Bool()
	data := rt.Bytes(6)
	st := &ANSState{}
	var state uint32
	r := &rt.RefReader{D: data}
	if have {
		state = rt.U32()
		st.SetState(int32(state))
	} else {
		state = uint32(r.U(32))
	}
	x := int(state & 4095)
	bucket := rt.Concrete(x >> 7)
	x = bucket<<7 | x&127
	ws, wo := a.look(x)
	next := uint32(freq[ws])*(state>>12) + uint32(wo)
	if next < 1<<16 {
		next = next<<16 | uint32(r.U(16))
	}
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	got, err := d.ReadSymbol(br, st)
	rt.Assert(err == nil && int(got) == ws, "the symbol of the state's slot is returned")
	rt.Assert(st.HasState && uint32(st.State) == next, "the new state is the one the format defines")
	rt.Assert(br.BitsRead() == uint64(r.P), "the state is read first and refilled exactly when it drops below 2^16")
	rt.Reach("ok")
}

// Reading undoes the encoder's step.
func VH_E03_Inverse() {
	freqs := [][]int{{1, 4095}, {100, 3000, 996}, {0, 4090, 3, 3}}
	freq := freqs[rt.Concrete(rt.Int(0, len(freqs)-1))]
	d := e03Dist(freq, 5)
	a := e03Ref(freq, 5)
	s := rt.Concrete(rt.Int(0, len(freq)-1))
	rt.Assume(freq[s] > 0)
	// the encoder's state before its step, already renormalised
	x := rt.U32()
	rt.Assume(uint64(x) < uint64(freq[s])<<20 && x >= 1<<16)
	if !rt.Thorough() {
		rt.Assume(x&0xfffff == 0x5abcd || x>>18 == 0 && x&0xff == 0xcd)
	}
	q, o := x/uint32(freq[s]), int(x%uint32(freq[s]))
	// slot with this symbol and offset
	slot := rt.Int(0, 4095)
	bucket := rt.Concrete(slot >> 7)
	slot = bucket<<7 | slot&127
	ws, wo := a.look(slot)
	rt.Assume(ws == s && wo == o)
	st := &ANSState{}
	st.SetState(int32(q<<12 | uint32(slot)))
	got, err := d.ReadSymbol(nil, st)
	rt.Assert(err == nil && int(got) == s, "the encoded symbol is read back")
	rt.Assert(uint32(st.State) == x, "the encoder's previous state is restored")
	rt.Reach("ok")
}
