package frame

import (
	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: property 0..14 of every position in channels of width 1..4 and height 1..3 with all samples below 2^26 in absolute value and any 32-bit threshold
// bound: properties 16..27 taken from up to 3 previous channels with the same or other dimensions and shifts, channels of 3x2 (quick: samples below 2^9 in absolute value, every position only if all channels are alike)
// bound: every tree shape with up to 2 (thorough 3) decision nodes over properties 0..3, 6, 7, 9 with any 32-bit thresholds, channel index 0 and 1, any stream index below 2^20, any leaf offset; trees decode two samples
// bound: parsing: all trees of up to 3 (thorough 5) nodes with any field values, errors at any symbol
// outside: larger trees (up to 2^20 nodes), property 15 (M03), properties above 27

// m01Hood is a neighbourhood with the terms of the properties.
func m01Prop(p int, b []int32, w, x, y int, ci, si int32) int32 {
	h := mHoodAt(b, w, x, y)
	switch p {
	case 0:
		return ci
	case 1:
		return si
	case 2:
		return int32(y)
	case 3:
		return int32(x)
	case 4:
		return mAbs(h.n)
	case 5:
		return mAbs(h.w)
	case 6:
		return h.n
	case 7:
		return h.w
	case 8:
		if x == 0 {
			return h.w
		}
		l := mHoodAt(b, w, x-1, y)
		return h.w - (l.w + l.n - l.nw)
	case 9:
		return h.w + h.n - h.nw
	case 10:
		return h.w - h.nw
	case 11:
		return h.nw - h.n
	case 12:
		return h.n - h.ne
	case 13:
		return h.n - h.nn
	case 14:
		return h.w - h.ww
	}
	return 0
}

// m01Decode decodes a channel up to x,y, with the given symbols before it, and returns
// the context and value there. sub is the tree in effect at that position.
func m01Decode(ms *ModularStream, ci, si int32, w, x, y int, r []uint32, sub []mNode, last uint32) (ctx int, value int32) {
	rt.Merge(false)
	tree, err := mTree(mAt(x, y, sub))
	rt.Assert(err == nil, "the tree is accepted")
	if err != nil {
		return -1, 0
	}
	i := 0
	s := &symStream{}
	s.f = func(c int, mult int32) (int32, error) {
		i++
		if i <= len(r) {
			rt.Assert(c != ctx1, "other samples use other leaves")
			return int32(r[i-1]), nil
		}
		if i > len(r)+1 {
			return 0, errSym
		}
		ctx = c
		return int32(last), nil
	}
	c := ms.channels[int(ci)]
	rt.Merge(true)
	c.decode(nil, s, nil, tree, ms, ci, si, 0)
	rt.Merge(false)
	rt.Assert(i > len(r), "decoding reaches the sample")
	if i <= len(r) {
		return -1, 0
	}
	return ctx, c.buffer[y][x]
}

const ctx1 = -1

func m01Samples(n int) (r []uint32, v []int32) {
	for i := 0; i < n; i++ {
		u := rt.U32()
		rt.Assume(u < 1<<27)
		r = append(r, u)
		v = append(v, mSigned(u))
	}
	return
}

func m01Property(ps ...int) {
	p := ps[rt.Concrete(rt.Int(0, len(ps)-1))]
	w := rt.Concrete(rt.Int(1, 4))
	h := rt.Concrete(rt.Int(1, 3))
	x := rt.Concrete(rt.Int(0, 3))
	rt.Assume(x < w)
	y := h - 1
	rt.Merge(true)
	r, v := m01Samples(y*w + x)
	t := rt.U32()
	want := 3
	if m01Prop(p, append(append([]int32{}, v...), make([]int32, w*h)...), w, x, y, 2, 9) > mSigned(t) {
		want = 2
	}
	rt.Merge(false)
	ms := &ModularStream{}
	for i := 0; i < 3; i++ {
		ms.channels = append(ms.channels, mFilled(1, 1, []int32{77}))
	}
	ms.channels[2] = mChannel(w, h)
	ctx, _ := m01Decode(ms, 2, 9, w, x, y, r, []mNode{{prop: int32(p), value: t}, mLeaf(0), mLeaf(0)}, 0)
	rt.Assert(ctx == want, "the left branch is taken exactly if the property is above the threshold")
	rt.Reach("decided")
}

func VH_M01_PropertyStatic()   { m01Property(0, 1, 2, 3) }
func VH_M01_PropertyValue()    { m01Property(4, 5, 6, 7) }
func VH_M01_PropertyGradient() { m01Property(8, 9) }
func VH_M01_PropertyDiff()     { m01Property(10, 11, 12, 13, 14) }

// VH_M01_Previous: properties of previously decoded channels.
func VH_M01_Previous() {
	const w, h = 3, 2
	x := rt.Concrete(rt.Int(0, 2))
	y := rt.Concrete(rt.Int(0, 1))
	p := rt.Concrete(rt.Int(16, 27))
	// which of the previous channels look like this one
	kind := rt.Concrete(rt.Int(0, 4))
	max := int32(1 << 26)
	if !rt.Thorough() {
		max = 1 << 9
		rt.Assume(x != 1 && (x == 2 || kind == 0))
	}
	ms := &ModularStream{}
	var same [][]int32
	rt.Merge(true)
	for i := 0; i < 3; i++ {
		v := mSyms(w*h, max)
		c := mFilled(w, h, v)
		like := kind == 0
		switch kind {
		case 1:
			like = i != 1
			if !like {
				c.hshift++
			}
		case 2:
			like = i != 2
			if !like {
				c.vshift++
			}
		case 3:
			like = i == 1
			if !like {
				c = mFilled(h, w, v)
			}
		case 4:
			like = i == 0
			if !like {
				c = mFilled(w, h+i, append(v, mSyms(w*i, max)...))
			}
		}
		if like {
			same = append(same, v)
		}
		ms.channels = append(ms.channels, c)
	}
	ms.channels = append(ms.channels, mChannel(w, h))
	t := rt.U32()
	val := int32(0)
	if j := (p - 16) / 4; j < len(same) {
		b := same[len(same)-1-j]
		at := func(dx, dy int) int32 { return b[(y+dy)*w+x+dx] }
		var rw, rn, rnw int32
		if x > 0 {
			rw = at(-1, 0)
		}
		rn = rw
		if y > 0 {
			rn = at(0, -1)
		}
		rnw = rw
		if x > 0 && y > 0 {
			rnw = at(-1, -1)
		}
		switch v := at(0, 0); p % 4 {
		case 0:
			val = mAbs(v)
		case 1:
			val = v
		case 2:
			val = mAbs(v - mClampGrad(rw, rn, rnw))
		case 3:
			val = v - mClampGrad(rw, rn, rnw)
		}
	}
	want := 3
	if val > mSigned(t) {
		want = 2
	}
	rt.Merge(false)
	ctx, _ := m01Decode(ms, 3, 0, w, x, y, make([]uint32, y*w+x), []mNode{{prop: int32(p), value: t}, mLeaf(0), mLeaf(0)}, 0)
	rt.Assert(ctx == want, "properties of previous channels")
	rt.Reach("decided")
}

// m01Shapes are the trees with up to three decisions, as the kinds of the nodes in coding order.
var m01Shapes = []string{"L", "dLL", "ddLLL", "dLdLL", "ddLLdLL", "ddLdLLL", "dLddLLL", "dLdLdLL", "dddLLLL"}

func m01Kids(kinds string) (left []int) {
	next := 1
	for _, k := range kinds {
		if k == 'd' {
			left = append(left, next)
			next += 2
		} else {
			left = append(left, 0)
		}
	}
	return
}

// VH_M01_Walk: which leaf is used, and with which offset and multiplier.
func VH_M01_Walk() {
	kinds := m01Shapes[rt.Concrete(rt.Int(0, len(m01Shapes)-1))]
	rt.Assume(len(kinds) < 7 || rt.Thorough())
	w := rt.Concrete(rt.Int(1, 2))
	h := 3 - w
	props := []int32{0, 1, 2, 3, 6, 7, 9}
	first := rt.Concrete(rt.Int(0, len(props)-1))
	step := rt.Concrete(rt.Int(1, 3))
	rt.Assume(len(kinds) > 3 || step == 1)
	ci := int32(rt.Concrete(rt.Int(0, 1)))
	si := rt.I32()
	rt.Assume(si >= 0 && si < 1<<20)
	rt.Merge(true)
	var nodes []mNode
	var off, mul []int32
	d := 0
	for i, k := range kinds {
		off, mul = append(off, 0), append(mul, 0)
		if k == 'd' {
			nodes = append(nodes, mNode{prop: props[(first+d*step)%len(props)], value: rt.U32()})
			d++
			continue
		}
		n := mLeaf(0)
		n.off = rt.U32()
		off[i] = mSigned(n.off)
		n.mulBits = int32(i)
		n.mulLog = int32(i & 1)
		mul[i] = (n.mulBits + 1) << uint(n.mulLog)
		nodes = append(nodes, n)
	}
	r := []uint32{rt.U32() >> 22, rt.U32() >> 22}
	left := m01Kids(kinds)
	rt.Merge(false)
	v := make([]int32, 2)
	ctx := make([]int, 2)
	for p := range v {
		i := 0
		for nodes[i].prop >= 0 {
			if m01Prop(int(nodes[i].prop), v, w, p%w, p/w, ci, si) > mSigned(nodes[i].value) {
				i = left[i]
			} else {
				i = left[i] + 1
			}
		}
		for j := 0; j < i; j++ {
			if kinds[j] == 'L' {
				ctx[p]++
			}
		}
		v[p] = mSigned(r[p])*mul[i] + off[i]
	}
	tree, err := mTree(nodes)
	rt.Assert(err == nil, "the tree is accepted")
	n := 0
	s := &symStream{}
	s.f = func(k int, mult int32) (int32, error) {
		rt.Assert(n < 2, "one symbol per sample")
		rt.Assert(k == ctx[n], "the leaf selected by the comparisons is used")
		n++
		return int32(r[n-1]), nil
	}
	c := mChannel(w, h)
	err = c.decode(nil, s, nil, tree, &ModularStream{channels: []*ModularChannel{c, c}}, ci, si, 0)
	rt.Assert(err == nil && n == 2, "all samples are decoded")
	rt.Assert(c.buffer[0][0] == v[0] && c.buffer[h-1][w-1] == v[1], "the leaf's offset and multiplier are used")
	rt.Reach("walked")
}

// VH_M01_Parse: node fields and malformed trees.
func VH_M01_Parse() {
	max := 3
	if rt.Thorough() {
		max = 5
	}
	fail := rt.Concrete(rt.Int(0, 13))
	state := rt.Bool()
	var nodes []mNode
	bad := false
	n := 0
	want := 1
	leaves := 0
	var syms []int32
	var ctxs []int
	done := false
	sym := func(ctx int) int32 {
		if len(syms) == fail {
			done, bad = true, true
			return 0
		}
		v := rt.I32()
		syms = append(syms, v)
		ctxs = append(ctxs, ctx)
		return v
	}
	for ; n < want && !done; n++ {
		p := sym(1)
		if done {
			break
		}
		if p < 0 || p > 256 {
			bad = true
			break
		}
		var k mNode
		k.prop = p - 1
		if p > 0 {
			rt.Assume(want+2 <= max)
			want += 2
			k.value = uint32(sym(0))
			k.kids = [2]int{want - 2, want - 1}
			nodes = append(nodes, k)
			continue
		}
		k.pred = sym(2)
		if done {
			break
		}
		if k.pred < 0 || k.pred > 13 {
			bad = true
			break
		}
		k.off = uint32(sym(3))
		if done {
			break
		}
		k.mulLog = sym(4)
		if done {
			break
		}
		if k.mulLog < 0 || k.mulLog > 30 {
			bad = true
			break
		}
		k.mulBits = sym(5)
		if done {
			break
		}
		if int64(k.mulBits)+1 > (1<<31-1)>>uint(k.mulLog) || k.mulBits < 0 {
			bad = true
			break
		}
		k.ctx = leaves
		leaves++
		nodes = append(nodes, k)
	}
	i := 0
	s := &symStream{bad: state}
	s.f = func(ctx int, mult int32) (int32, error) {
		if i == fail {
			return 0, errSym
		}
		rt.Assert(i < len(syms), "no symbol is read past a malformed node")
		rt.Assert(ctx == ctxs[i], "each field of a tree node is read with its own context")
		i++
		return syms[i-1], nil
	}
	out := &symStream{}
	rt.Merge(true)
	tree, err := NewMATreeWithReader(nil,
		func(r jxlio.BitReader, n int, f entropy.ReadClusterMapFunc) (entropy.EntropyStreamer, error) {
			rt.Assert(n == 6, "trees are coded with six contexts")
			return s, nil
		},
		func(r jxlio.BitReader, n int, no bool, f func(jxlio.BitReader, []int, int) (int, error)) (entropy.EntropyStreamer, error) {
			rt.Assert(n == leaves, "there is one context per leaf")
			rt.Assert(!no, "residuals may use LZ77")
			return out, nil
		})
	rt.Merge(false)
	rt.Assert((err != nil) == (bad || state), "exactly the malformed trees are rejected")
	rt.Reach("parsed")
	if err != nil || bad {
		return
	}
	rt.Reach("accepted")
	m01Same(tree, nodes, 0, out)
}

func m01Same(t *MATreeNode, nodes []mNode, i int, s *symStream) {
	k := nodes[i]
	rt.Assert(t.isLeafNode() == (k.prop < 0), "leaves are leaves")
	if k.prop >= 0 {
		rt.Assert(t.property == k.prop && t.value == mSigned(k.value), "a decision has the property and threshold coded for it")
		m01Same(t.leftChildNode, nodes, k.kids[0], s)
		m01Same(t.rightChildNode, nodes, k.kids[1], s)
		return
	}
	rt.Assert(int(t.context) == k.ctx, "leaves are numbered in coding order")
	rt.Assert(t.predictor == k.pred && t.offset == mSigned(k.off), "a leaf has the predictor and offset coded for it")
	rt.Assert(int64(t.multiplier) == (int64(k.mulBits)+1)<<uint(k.mulLog), "a leaf has the multiplier coded for it")
	rt.Assert(t.stream == entropy.EntropyStreamer(s), "leaves share the stream of the residuals")
}
