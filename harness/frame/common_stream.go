package frame

import (
	"errors"

	"github.com/kpfaulkner/jxl-go/bundle"
	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// symStream stands for an entropy coded stream that delivers the symbols chosen by f.
type symStream struct {
	entropy.EntropyStreamer
	f     func(ctx int, mult int32) (int32, error)
	valid int
	bad   bool
}

func (s *symStream) ReadSymbol(r jxlio.BitReader, ctx int) (int32, error) { return s.f(ctx, 0) }
func (s *symStream) TryReadSymbol(r jxlio.BitReader, ctx int) int32 {
	v, err := s.f(ctx, 0)
	if err != nil {
		panic(err)
	}
	return v
}
func (s *symStream) ReadSymbolWithMultiplier(r jxlio.BitReader, ctx int, mult int32) (int32, error) {
	return s.f(ctx, mult)
}
func (s *symStream) ValidateFinalState() bool { s.valid++; return !s.bad }
func (s *symStream) GetState() *entropy.ANSState {
	return &entropy.ANSState{}
}

var errSym = errors.New("end of symbols")

// mNode describes one node of a decision tree in the order the format codes them.
type mNode struct {
	prop     int32 // -1 for a leaf
	value    uint32
	pred     int32
	off      uint32
	mulLog   int32
	mulBits  int32
	bad      bool
	kids     [2]int
	ctx      int
	leafMult int32
}

// mTree builds a tree through the real parser. It asserts that the parser takes the
// symbols from the contexts of the format.
func mTree(nodes []mNode) (*MATreeNode, error) {
	var syms []int32
	var ctxs []int
	put := func(c int, v int32) {
		syms = append(syms, v)
		ctxs = append(ctxs, c)
	}
	leaves := 0
	for _, n := range nodes {
		put(1, n.prop+1)
		if n.prop >= 0 {
			put(0, int32(n.value))
			continue
		}
		leaves++
		put(2, n.pred)
		put(3, int32(n.off))
		put(4, n.mulLog)
		put(5, n.mulBits)
	}
	i := 0
	s := &symStream{}
	s.f = func(ctx int, mult int32) (int32, error) {
		rt.Assert(i < len(syms), "no more symbols than the tree has are read")
		rt.Assert(ctx == ctxs[i], "each field of a tree node is read with its own context")
		i++
		return syms[i-1], nil
	}
	rt.Merge(true)
	t, err := NewMATreeWithReader(nil,
		func(r jxlio.BitReader, n int, f entropy.ReadClusterMapFunc) (entropy.EntropyStreamer, error) {
			rt.Assert(n == 6, "trees are coded with six contexts")
			return s, nil
		},
		func(r jxlio.BitReader, n int, no bool, f func(jxlio.BitReader, []int, int) (int, error)) (entropy.EntropyStreamer, error) {
			rt.Assert(n == leaves, "there is one context per leaf")
			rt.Assert(!no, "residuals may use LZ77")
			return &symStream{}, nil
		})
	rt.Merge(false)
	if err == nil {
		rt.Assert(i == len(syms), "all nodes of the tree are read")
		rt.Assert(s.valid > 0, "the final state of the tree's stream is checked")
	}
	return t, err
}

func mLeaf(pred int32) mNode { return mNode{prop: -1, pred: pred} }

// mSigned is the format's mapping of unsigned numbers to signed ones.
func mSigned(u uint32) int32 { return jxlio.UnpackSigned(u) }

// mPack gives the number whose signed value is v.
func mPack(v int32) uint32 {
	if v < 0 {
		return uint32(-2*int64(v) - 1)
	}
	return uint32(2 * v)
}

// mAt puts sub at the target pixel: at other pixels the leaf with predictor 0 is used.
// The leaf contexts of sub start at 2 as long as sub's nodes come last.
func mAt(x, y int, sub []mNode) []mNode {
	n := []mNode{
		{prop: 2, value: mPack(int32(y) - 1)},
		{prop: 3, value: mPack(int32(x) - 1)},
		mLeaf(0),
	}
	if len(sub) == 1 {
		return append(n, sub[0], mLeaf(0))
	}
	return append(append(n, sub[0], mLeaf(0)), sub[1:]...)
}

type symFramer struct {
	Framer
	header FrameHeader
	meta   bundle.ImageHeader
	tree   *MATreeNode
}

func (f *symFramer) getFrameHeader() *FrameHeader           { return &f.header }
func (f *symFramer) getGlobalMetadata() *bundle.ImageHeader { return &f.meta }
func (f *symFramer) getGlobalTree() *MATreeNode             { return f.tree }
func (f *symFramer) setGlobalTree(t *MATreeNode)            { f.tree = t }

func symFrame(depth int32) *symFramer {
	f := &symFramer{}
	f.header.groupDim = 256
	f.header.Bounds = &util.Rectangle{Size: util.Dimension{Width: 8, Height: 8}}
	f.meta.BitDepth = &bundle.BitDepthHeader{}
	f.meta.BitDepth.BitsPerSample = uint32(depth)
	return f
}

func mChannel(w, h int) *ModularChannel {
	return NewModularChannelWithAllParams(int32(h), int32(w), 0, 0, false)
}

// mFilled is a decoded channel with the given samples.
func mFilled(w, h int, v []int32) *ModularChannel {
	c := mChannel(w, h)
	c.allocate()
	c.decoded = true
	for i := range v {
		c.buffer[i/w][i%w] = v[i]
	}
	return c
}

func mSyms(n int, max int32) []int32 {
	v := make([]int32, n)
	for i := range v {
		v[i] = int32(rt.U32()&uint32(2*max-1)) - max
	}
	return v
}

// mBits builds bit streams, least significant bit first.
type mBits struct{ b []byte }

func (s *mBits) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		s.b = append(s.b, byte(v>>uint(i)&1))
	}
}

func (s *mBits) bytes() []byte {
	out := make([]byte, (len(s.b)+7)/8)
	for i := range out {
		for j := 0; j < 8 && 8*i+j < len(s.b); j++ {
			out[i] |= s.b[8*i+j] << uint(j)
		}
	}
	return out
}

// mHood are the neighbours of a sample with the format's substitutions at the edges.
type mHood struct{ w, n, nw, ne, nn, nee, ww int32 }

func mHoodAt(b []int32, w, x, y int) (h mHood) {
	at := func(dx, dy int) int32 { return b[(y+dy)*w+x+dx] }
	switch {
	case x > 0:
		h.w = at(-1, 0)
	case y > 0:
		h.w = at(0, -1)
	}
	h.n, h.nw, h.ww = h.w, h.w, h.w
	if y > 0 {
		h.n = at(0, -1)
	}
	if x > 0 && y > 0 {
		h.nw = at(-1, -1)
	}
	h.ne, h.nn = h.n, h.n
	if y > 0 && x+1 < w {
		h.ne = at(1, -1)
	}
	h.nee = h.ne
	if y > 0 && x+2 < w {
		h.nee = at(2, -1)
	}
	if y > 1 {
		h.nn = at(0, -2)
	}
	if x > 1 {
		h.ww = at(-2, 0)
	}
	return
}

func mAbs(v int32) int32 {
	if v < 0 {
		return -v
	}
	return v
}

// mClampGrad is w+n-nw clamped to the range of w and n.
func mClampGrad(w, n, nw int32) int32 {
	lo, hi := w, n
	if n < w {
		lo, hi = n, w
	}
	v := w + n - nw
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func mPredict(k int, h mHood) int32 {
	switch k {
	case 1:
		return h.w
	case 2:
		return h.n
	case 3:
		return (h.w + h.n) / 2
	case 4:
		p := h.w + h.n - h.nw
		if mAbs(p-h.w) < mAbs(p-h.n) {
			return h.w
		}
		return h.n
	case 5:
		return mClampGrad(h.w, h.n, h.nw)
	case 7:
		return h.ne
	case 8:
		return h.nw
	case 9:
		return h.ww
	case 10:
		return (h.w + h.nw) / 2
	case 11:
		return (h.n + h.nw) / 2
	case 12:
		return (h.n + h.ne) / 2
	case 13:
		return (6*h.n - 2*h.nn + 7*h.w + h.ww + h.nee + 3*h.ne + 8) / 16
	}
	return 0
}
