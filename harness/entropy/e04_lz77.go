package entropy

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: up to 4 tokens (thorough 5), each a literal of any value or a copy of 3..6 values (minimum length any the header can give up to 9) at any distance token below 2^15, with distance multiplier 0 or one of several widths; three contexts over three clusters with every assignment; headers with every minimum symbol and length form
// outside: more tokens than that, copies longer than 6 in sequence with others, more than 2^31 decoded values

// e04Dist hands out scripted tokens and records who asked.
type e04Dist struct {
	SymbolDistribution
	id     int
	script *e04Script
}

type e04Script struct {
	tokens []int32
	dist   []int
	pos    int
}

func (d *e04Dist) ReadSymbol(reader jxlio.BitReader, state *ANSState) (int32, error) {
	s := d.script
	rt.Assert(s.pos < len(s.tokens), "no token is read beyond those that are due")
	rt.Assert(s.dist[s.pos] == d.id, "each token is read with the distribution of its context")
	s.pos++
	return s.tokens[s.pos-1], nil
}

// e04Stream loads an entropy stream with three clusters; all hybrid configurations are direct.
func e04Stream(lz bool, minSym, minLen, ctxs int, clusters []int) *EntropyStream {
	var s bitSink
	if lz {
		s.put(1, 1)
		switch minSym {
		case 224:
			s.put(0, 2)
		case 512:
			s.put(1, 2)
		case 4096:
			s.put(2, 2)
		default:
			s.put(3, 2)
			s.put(uint64(minSym-8), 15)
		}
		switch {
		case minLen == 3:
			s.put(0, 2)
		case minLen == 4:
			s.put(1, 2)
		case minLen < 9:
			s.put(2, 2)
			s.put(uint64(minLen-5), 2)
		default:
			s.put(3, 2)
			s.put(uint64(minLen-9), 8)
		}
		s.put(8, 4) // length configuration: direct
	} else {
		s.put(0, 1)
	}
	s.put(1, 1) // prefix codes
	n := 0
	for _, c := range clusters {
		n = max(n, c+1)
	}
	for i := 0; i < n; i++ {
		s.put(15, 4) // direct
	}
	s.put(0, n) // alphabets of one symbol
	s.put(0, 8)
	es := &EntropyStream{}
	err := es.LoadWithReader(jxlio.NewBitStreamReader(bytes.NewReader(s.bytes())), ctxs, false,
		func(reader jxlio.BitReader, m []int, maxClusters int) (int, error) {
			want := ctxs
			if lz {
				want++
			}
			rt.Assert(len(m) == want && maxClusters >= n, "there is one more context for distances with LZ77")
			copy(m, clusters)
			return n, nil
		})
	rt.Assert(err == nil, "a valid header is accepted")
	return es
}

func e04Install(es *EntropyStream, script *e04Script) {
	for i, d := range es.dists {
		es.dists[i] = &e04Dist{SymbolDistribution: d, id: i, script: script}
	}
}

var e04Special = [120][2]int{
	{0, 1}, {1, 0}, {1, 1}, {-1, 1}, {0, 2}, {2, 0}, {1, 2}, {-1, 2}, {2, 1}, {-2, 1},
	{2, 2}, {-2, 2}, {0, 3}, {3, 0}, {1, 3}, {-1, 3}, {3, 1}, {-3, 1}, {2, 3}, {-2, 3},
	{3, 2}, {-3, 2}, {0, 4}, {4, 0}, {1, 4}, {-1, 4}, {4, 1}, {-4, 1}, {3, 3}, {-3, 3},
	{2, 4}, {-2, 4}, {4, 2}, {-4, 2}, {0, 5}, {3, 4}, {-3, 4}, {4, 3}, {-4, 3}, {5, 0},
	{1, 5}, {-1, 5}, {5, 1}, {-5, 1}, {2, 5}, {-2, 5}, {5, 2}, {-5, 2}, {4, 4}, {-4, 4},
	{3, 5}, {-3, 5}, {5, 3}, {-5, 3}, {0, 6}, {6, 0}, {1, 6}, {-1, 6}, {6, 1}, {-6, 1},
	{2, 6}, {-2, 6}, {6, 2}, {-6, 2}, {4, 5}, {-4, 5}, {5, 4}, {-5, 4}, {3, 6}, {-3, 6},
	{6, 3}, {-6, 3}, {0, 7}, {7, 0}, {1, 7}, {-1, 7}, {5, 5}, {-5, 5}, {7, 1}, {-7, 1},
	{4, 6}, {-4, 6}, {6, 4}, {-6, 4}, {2, 7}, {-2, 7}, {7, 2}, {-7, 2}, {3, 7}, {-3, 7},
	{7, 3}, {-7, 3}, {5, 6}, {-5, 6}, {6, 5}, {-6, 5}, {8, 0}, {4, 7}, {-4, 7}, {7, 4},
	{-7, 4}, {8, 1}, {8, 2}, {6, 6}, {-6, 6}, {8, 3}, {5, 7}, {-5, 7}, {7, 5}, {-7, 5},
	{8, 4}, {6, 7}, {-6, 7}, {7, 6}, {-7, 6}, {8, 5}, {7, 7}, {-7, 7}, {8, 6}, {8, 7}}

// e04Distance is the format's distance for a distance token.
func e04Distance(d, mult int) int {
	switch {
	case mult == 0:
		return d + 1
	case d < 120:
		d = rt.Concrete(d)
		return max(1, e04Special[d][0]+mult*e04Special[d][1])
	}
	return d - 119
}

// e04Run scripts n tokens and compares what is read with the format's sequence.
func e04Run(n, mult, maxLen int, special bool) {
	minSym := []int{224, 512, 4096, 300}[rt.Concrete(rt.Int(0, 3))]
	minLen := 3
	es := e04Stream(true, minSym, minLen, 1, []int{0, 1})
	script := &e04Script{}
	e04Install(es, script)
	var want []int32
	rt.Merge(false)
	for i := 0; i < n; i++ {
		if !rt.Bool() {
			v := rt.Int(0, minSym-1)
			script.tokens = append(script.tokens, int32(v))
			script.dist = append(script.dist, 0)
			want = append(want, int32(v))
			continue
		}
		l := rt.Concrete(rt.Int(0, maxLen))
		d := rt.Int(0, 1<<15-1)
		if special {
			rt.Assume(d < 120)
		} else if mult != 0 {
			rt.Assume(d >= 120)
		}
		script.tokens = append(script.tokens, int32(minSym+l), int32(d))
		script.dist = append(script.dist, 0, 1)
		dist := rt.Concrete(min(e04Distance(d, mult), len(want)))
		for j := 0; j < minLen+l; j++ {
			if dist == 0 {
				want = append(want, 0)
			} else {
				want = append(want, want[len(want)-dist])
			}
		}
	}
	for _, w := range want {
		got, err := es.ReadSymbolWithMultiplier(nil, 0, int32(mult))
		rt.Assert(err == nil && got == w, "literals and copies give the sequence the format defines")
	}
	rt.Assert(script.pos == len(script.tokens), "every token is read when it is due")
	rt.Reach("ok")
}

func e04Tokens() int {
	if rt.Thorough() {
		return 4
	}
	return 3
}

func VH_E04_Copies() {
	e04Run(e04Tokens(), 0, 2, false)
}

func VH_E04_CopiesFar() {
	e04Run(e04Tokens(), []int{1, 3, 200}[rt.Concrete(rt.Int(0, 2))], 1, false)
}

// Special distances, with many values already there.
func VH_E04_Special() {
	mult := []int{1, 2, 3, 7, 8, 9}[rt.Concrete(rt.Int(0, 5))]
	es := e04Stream(true, 224, 3, 1, []int{0, 1})
	script := &e04Script{}
	e04Install(es, script)
	n := 80
	d := rt.Concrete(rt.Int(0, 119))
	dist := min(e04Distance(d, mult), n)
	for i := 0; i < n; i++ {
		v := i
		if i == n-dist {
			v = rt.Int(0, 223)
		}
		script.tokens = append(script.tokens, int32(v))
		script.dist = append(script.dist, 0)
	}
	script.tokens = append(script.tokens, 224, int32(d))
	script.dist = append(script.dist, 0, 1)
	for i := 0; i < n; i++ {
		got, err := es.ReadSymbolWithMultiplier(nil, 0, int32(mult))
		rt.Assert(err == nil && got == script.tokens[i], "literals are returned")
	}
	got, err := es.ReadSymbolWithMultiplier(nil, 0, int32(mult))
	rt.Assert(err == nil && got == script.tokens[n-dist], "special distances are those of the format")
	rt.Reach("ok")
}

// Lengths of a copy: the minimum length of the header plus the length token, then literals again.
func VH_E04_Lengths() {
	minLen := rt.Concrete(rt.Int(3, 9))
	if rt.Bool() {
		minLen = []int{10, 64, 264}[rt.Concrete(rt.Int(0, 2))]
	}
	es := e04Stream(true, 224, minLen, 1, []int{0, 0})
	l := rt.Int(0, 255)
	rt.Assume(l < 4 || l > 253)
	l = rt.Concrete(l)
	a, b := rt.Int(0, 223), rt.Int(0, 223)
	script := &e04Script{tokens: []int32{int32(a), int32(224 + l), 0, int32(b)}, dist: []int{0, 0, 0, 0}}
	e04Install(es, script)
	for i := 0; i <= minLen+l; i++ {
		got, err := es.ReadSymbol(nil, 0)
		rt.Assert(err == nil && got == int32(a), "a copy of distance one repeats the value")
		rt.Assert(script.pos == 1 || i > 0 && script.pos == 3, "a copy has the length the format defines")
	}
	got, err := es.ReadSymbol(nil, 0)
	rt.Assert(err == nil && got == int32(b) && script.pos == 4, "then the next token is read")
	rt.Reach("ok")
}

// Contexts: with and without LZ77 each context reads from its own cluster.
func VH_E04_Contexts() {
	lz := rt.Bool()
	cl := make([]int, 4)
	for i := range cl {
		cl[i] = rt.Concrete(rt.Int(0, 2))
	}
	es := e04Stream(lz, 224, 3, 3, cl[:3+b2i(lz)])
	script := &e04Script{}
	e04Install(es, script)
	for i := 0; i < 2; i++ {
		ctx := rt.Concrete(rt.Int(0, 2))
		v := rt.Int(0, 223)
		script.tokens = append(script.tokens, int32(v))
		script.dist = append(script.dist, cl[ctx])
		got, err := es.ReadSymbol(nil, ctx)
		rt.Assert(err == nil && got == int32(v), "the value of the context's distribution is returned")
		if i > 0 {
			continue
		}
		big := rt.Int(224, 226)
		if lz {
			script.tokens = append(script.tokens, int32(big), 0)
			script.dist = append(script.dist, cl[ctx], cl[3])
			for j := 0; j < 3+big-224; j++ {
				c := ctx
				if j > 0 {
					c = (ctx + j) % 3
				}
				got, err = es.ReadSymbol(nil, c)
				rt.Assert(err == nil && got == int32(v), "copied values come from the window whatever the context")
			}
		} else {
			script.tokens = append(script.tokens, int32(big))
			script.dist = append(script.dist, cl[ctx])
			got, err = es.ReadSymbol(nil, ctx)
			rt.Assert(err == nil && got == int32(big), "without LZ77 no token is special")
		}
	}
	rt.Reach("ok")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// A stream made from another one reads the same distributions with a history of its own.
func VH_E04_Shared() {
	es := e04Stream(true, 224, 3, 1, []int{0, 1})
	script := &e04Script{}
	e04Install(es, script)
	a, b := rt.Int(0, 223), rt.Int(0, 223)
	script.tokens = []int32{int32(a)}
	script.dist = []int{0}
	if rt.Bool() {
		// the first stream is in the middle of a copy
		script.tokens = append(script.tokens, 224, 0)
		script.dist = append(script.dist, 0, 1)
	}
	n := len(script.tokens)
	for i := 0; i < n; i++ {
		if i < 2 {
			_, err := es.ReadSymbol(nil, 0)
			rt.Assert(err == nil, "symbols are read")
		}
	}
	two := NewEntropyStreamWithStream(es)
	d := rt.Concrete(rt.Int(0, 2))
	script.tokens = append(script.tokens, int32(b), 225, int32(d))
	script.dist = append(script.dist, 0, 0, 1)
	for i := 0; i < 5; i++ {
		got, err := two.ReadSymbol(nil, 0)
		rt.Assert(err == nil && got == int32(b), "the new stream has an empty window and no pending copy")
	}
	rt.Reach("ok")
}

// A stream with LZ77 is rejected where it is not allowed.
func VH_E04_Nested() {
	data := rt.Bytes(4)
	es := &EntropyStream{}
	rt.Assume(data[0]&1 == 1)
	err := es.LoadWithReader(jxlio.NewBitStreamReader(bytes.NewReader(data)), 1, true, ReadClusterMap)
	rt.Assert(err != nil, "LZ77 is not allowed in a nested stream")
	_, err = es.ReadSymbol(nil, 5)
	rt.Assert(err != nil, "a context that does not exist is an error")
}
