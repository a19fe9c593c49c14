package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: natural orders up to 32x32 (thorough 128x128)
// bound: context numbers for every prediction, count, position, number of clusters, cluster map, threshold (up to 2 each) and LF index
// bound: coefficient streams of 2x2 blocks of plain, Hornuss, 8x16, 16x8 and 16x16 transforms with up to three coefficients each, any coefficient values, two presets, shifts 0 to 3
// bound: block context headers with up to two thresholds per channel, any values
// outside: subsampled frames; orders above 128x128

// v04Natural is the format's coefficient order: the low frequencies first, then diagonals in alternating direction.
func v04Natural(cx, cy int) []util.Point {
	n := cx * 8
	ratio := cx / cy
	out := make([]util.Point, 64*cx*cy)
	cur := cx * cy
	add := func(x, y int) {
		if y%ratio != 0 {
			return
		}
		y /= ratio
		p := util.Point{X: int32(x), Y: int32(y)}
		if x < cx && y < cy {
			out[y*cx+x] = p
			return
		}
		out[cur] = p
		cur++
	}
	for d := 0; d < 2*n-1; d++ {
		for j := max(0, d-n+1); j <= min(d, n-1); j++ {
			// odd diagonals run from the top right, even ones from the bottom left
			if d%2 == 1 {
				add(d-j, j)
			} else {
				add(j, d-j)
			}
		}
	}
	return out
}

// VH_V04_Order: natural orders.
func VH_V04_Order() {
	id := rt.Concrete(rt.Int(0, 12))
	dims := [13][2]int{{1, 1}, {1, 1}, {2, 2}, {4, 4}, {2, 1}, {4, 1}, {4, 2}, {8, 8}, {8, 4}, {16, 16}, {16, 8}, {32, 32}, {32, 16}}[id]
	if dims[0] > 4 && !rt.Thorough() || dims[0] > 8 {
		return
	}
	h := &HFPass{naturalOrder: util.MakeMatrix2D[util.Point](13, 0)}
	got, err := h.getNaturalOrder(int32(id))
	want := v04Natural(dims[0], dims[1])
	rt.Assert(err == nil && len(got) == len(want), "orders contain every coefficient")
	for i := range want {
		rt.Assert(got[i] == want[i], "natural orders are those of the format")
	}
	rt.Reach("order")
}

// VH_V04_Contexts: context numbers.
func VH_V04_Contexts() {
	nq := rt.Concrete(rt.Int(0, 2))
	clusters := int32(rt.Int(1, 16))
	lfctx := int32(rt.Concrete(rt.Int(1, 3)))
	ctx := &HFBlockContext{numClusters: clusters, numLFContexts: lfctx}
	for i := 0; i < nq; i++ {
		ctx.qfThresholds = append(ctx.qfThresholds, int32(rt.Int(1, 300)))
	}
	for i := 0; i < 39*(nq+1)*int(lfctx); i++ {
		ctx.clusterMap = append(ctx.clusterMap, i)
	}
	hf := &HFCoefficients{hfctx: ctx}
	c, order := rt.Concrete(rt.Int(0, 2)), int32(rt.Concrete(rt.Int(0, 12)))
	mult, lfi := int32(rt.Int(1, 256)), int32(rt.Int(0, int(lfctx)-1))
	rt.Merge(true)
	got := hf.getBlockContext(c, order, mult, lfi)
	q := int32(0)
	for _, t := range ctx.qfThresholds {
		if mult > t {
			q++
		}
	}
	k := int32([]int{1, 0, 2}[c])*13 + order
	want := (k*int32(nq+1)+q)*lfctx + lfi
	rt.Merge(false)
	rt.Assert(got == want, "block contexts follow channel, order, quantiser and LF index")
	if c > 0 || order > 0 {
		rt.Reach("block")
		return
	}
	bc, pred := int32(rt.Int(0, 15)), int32(rt.Int(0, 1023))
	rt.Merge(true)
	got = hf.getNonZeroContext(pred, bc)
	p := pred
	if p >= 64 {
		p = 64
	}
	if p >= 8 {
		p = 4 + p/2
	}
	want = p*clusters + bc
	rt.Merge(false)
	rt.Assert(got == want, "contexts of counts follow the prediction")

	log := rt.Concrete(rt.Int(0, 10))
	blocks := int32(1) << log
	nz, pos, prev := int32(rt.Int(1, 63<<log)), int32(rt.Int(1<<log, 64<<log-1)), int32(rt.Int(0, 1))
	rt.Merge(true)
	got = hf.getCoefficientContext(pos, nz, blocks, prev)
	left := (nz + blocks - 1) >> log
	f := pos >> log
	var fr, nzc int32
	switch {
	case f < 16:
		fr = f - 1
	case f < 32:
		fr = 15 + (f-16)/2
	default:
		fr = 23 + (f-32)/4
	}
	// the number of context pairs before those of this count
	switch {
	case left == 1:
		nzc = 0
	case left == 2:
		nzc = 31
	case left <= 4:
		nzc = 62
	case left <= 8:
		nzc = 93
	case left <= 12:
		nzc = 123
	case left <= 20:
		nzc = 152
	case left <= 32:
		nzc = 180
	default:
		nzc = 206
	}
	want = (nzc+fr)*2 + prev
	rt.Merge(false)
	rt.Assert(got == want, "contexts of coefficients follow position, remaining count and the last coefficient")
	rt.Reach("coefficient")
}

// VH_V04_Predicted: predictions of counts.
func VH_V04_Predicted() {
	nz := util.MakeMatrix3D[int32](3, 4, 4)
	for y := range nz[1] {
		for x := range nz[1][y] {
			nz[1][y][x] = int32(rt.Int(0, 63))
		}
	}
	y, x := rt.Concrete(rt.Int(0, 3)), rt.Concrete(rt.Int(0, 3))
	got := getPredictedNonZeros(nz, 1, int32(y), int32(x))
	want := int32(32)
	if y > 0 && x > 0 {
		want = (nz[1][y-1][x] + nz[1][y][x-1] + 1) / 2
	} else if y > 0 {
		want = nz[1][y-1][x]
	} else if x > 0 {
		want = nz[1][y][x-1]
	}
	rt.Assert(got == want, "counts are predicted from the blocks above and to the left")
	rt.Reach("predicted")
}

type v04Framer struct {
	symFramer
	hfg    HFGlobal
	lfg    LFGlobal
	group  *LFGroup
	passes []Pass
	pos    util.Point
}

func (f *v04Framer) getHFGlobal() *HFGlobal                          { return &f.hfg }
func (f *v04Framer) getLFGlobal() *LFGlobal                          { return &f.lfg }
func (f *v04Framer) getLFGroupForGroup(g int32) *LFGroup             { return f.group }
func (f *v04Framer) getPasses() []Pass                               { return f.passes }
func (f *v04Framer) getNumLFGroups() uint32                          { return 1 }
func (f *v04Framer) groupPosInLFGroup(lf int32, g uint32) util.Point { return f.pos }
func (f *v04Framer) getGroupSize(g int32) (util.Dimension, error) {
	return util.Dimension{Width: 16, Height: 16}, nil
}

type v04Bits struct {
	jxlio.BitReader
	v uint64
	n uint32
}

func (b *v04Bits) ReadBits(n uint32) (uint64, error) {
	b.n = n
	return b.v, nil
}

type v04Block struct {
	y, x, kind int
}

// VH_V04_Stream: contexts, positions and values of whole groups.
func VH_V04_Stream() {
	layouts := [][]v04Block{
		{{0, 0, 0}, {0, 1, 0}, {1, 0, 0}, {1, 1, 1}},
		{{0, 0, 7}, {1, 0, 1}, {1, 1, 0}},
		{{0, 0, 6}, {0, 1, 0}, {1, 1, 14}},
		{{0, 0, 4}},
	}
	layout := layouts[rt.Concrete(rt.Int(0, len(layouts)-1))]
	second := rt.Concrete(rt.Int(0, 1)) == 1
	shift := uint32(rt.Concrete(rt.Int(0, 1))) * 3
	preset := rt.Concrete(rt.Int(0, 1))
	if second {
		preset = 1 - preset
	}
	// which coefficients of each block and channel are there
	patterns := [][]int{{}, {0}, {1}, {0, 2}, {2, 3, 4}, {0, 1, 2, 3, 4, 5, 6}}
	salt := rt.Concrete(rt.Int(0, 5))
	var off util.Point
	if second {
		off = util.Point{X: 32, Y: 32}
	}
	f := &v04Framer{symFramer: *symFrame(8), pos: util.Point{X: off.X / 32, Y: off.Y / 32}}
	f.header.Encoding = VARDCT
	f.header.jpegUpsamplingX, f.header.jpegUpsamplingY = []int32{0, 0, 0}, []int32{0, 0, 0}
	f.header.passes = &PassesInfo{numPasses: 1, shift: []uint32{shift}}
	const clusters, presets = 3, 2
	ctx := &HFBlockContext{numClusters: clusters, numLFContexts: 2, qfThresholds: []int32{4}}
	for i := 0; i < 39*4; i++ {
		ctx.clusterMap = append(ctx.clusterMap, i*7%clusters)
	}
	f.lfg.hfBlockCtx = ctx
	f.hfg.numHFPresets = presets
	size := 2 + off.X
	lf := &LFGroup{size: util.Dimension{Width: uint32(size), Height: uint32(size)}}
	lf.hfMetadata = &HFMetadata{dctSelect: util.MakeMatrix2D[*TransformType](size, size), hfMultiplier: util.MakeMatrix2D[int32](size, size)}
	lf.lfCoeff = &LFCoefficients{lfIndex: util.MakeMatrix2D[int32](size, size)}
	f.group = lf
	if second {
		// a block of another group
		lf.hfMetadata.blockList = append(lf.hfMetadata.blockList, util.Point{X: 1, Y: 1})
		lf.hfMetadata.dctSelect[1][1] = &allDCT[0]
	}
	hp := &HFPass{order: util.MakeMatrix3D[util.Point](13, 3, 0)}
	for _, b := range layout {
		tt := &allDCT[b.kind]
		for iy := int32(0); iy < tt.dctSelectHeight; iy++ {
			for ix := int32(0); ix < tt.dctSelectWidth; ix++ {
				lf.hfMetadata.dctSelect[int32(b.y)+iy+off.Y][int32(b.x)+ix+off.X] = tt
				lf.hfMetadata.hfMultiplier[int32(b.y)+iy+off.Y][int32(b.x)+ix+off.X] = int32(3 + 2*((b.x+salt)%2))
				lf.lfCoeff.lfIndex[int32(b.y)+iy+off.Y][int32(b.x)+ix+off.X] = int32((b.y + salt) % 2)
			}
		}
		lf.hfMetadata.blockList = append(lf.hfMetadata.blockList, util.Point{X: int32(b.x) + off.X, Y: int32(b.y) + off.Y})
		cy, cx := int(min(tt.dctSelectHeight, tt.dctSelectWidth)), int(max(tt.dctSelectHeight, tt.dctSelectWidth))
		for c := 0; c < 3; c++ {
			nat := v04Natural(cx, cy)
			n := cx * cy
			// a different order for each channel
			o := append([]util.Point(nil), nat[:n]...)
			rot := 5*c + 1
			o = append(o, nat[n+rot:]...)
			o = append(o, nat[n:n+rot]...)
			hp.order[tt.orderID][c] = o
		}
	}
	// the symbols in the order of the format, with their contexts
	var syms, ctxs []int32
	put := func(c int32, v int32) {
		ctxs = append(ctxs, c)
		syms = append(syms, v)
	}
	var want [3][16][16]int32
	var counts [3][2][2]int32
	base := int32(495 * clusters * preset)
	fail := rt.Concrete(rt.Int(0, 3))
	expectErr := false
	for bi, b := range layout {
		tt := &allDCT[b.kind]
		nb := tt.dctSelectHeight * tt.dctSelectWidth
		for ci, c := range []int{1, 0, 2} {
			if expectErr {
				break
			}
			pred := int32(32)
			switch {
			case b.y > 0 && b.x > 0:
				pred = (counts[c][b.y-1][b.x] + counts[c][b.y][b.x-1] + 1) / 2
			case b.y > 0:
				pred = counts[c][b.y-1][b.x]
			case b.x > 0:
				pred = counts[c][b.y][b.x-1]
			}
			qf := int32(0)
			if lf.hfMetadata.hfMultiplier[int32(b.y)+off.Y][int32(b.x)+off.X] > 4 {
				qf = 1
			}
			k := int32([]int{1, 0, 2}[c])*13 + tt.orderID
			bc := int32(ctx.clusterMap[(k*2+qf)*2+lf.lfCoeff.lfIndex[int32(b.y)+off.Y][int32(b.x)+off.X]])
			pat := patterns[(bi+2*ci+salt)%len(patterns)]
			nz := int32(len(pat))
			last := bi == len(layout)-1 && ci == 2
			if last && fail == 1 {
				put(base+f04NonZero(pred)*clusters+bc, 63*nb+1)
				expectErr = true
				break
			}
			put(base+f04NonZero(pred)*clusters+bc, nz)
			for y := int32(0); y < tt.dctSelectHeight; y++ {
				for x := int32(0); x < tt.dctSelectWidth; x++ {
					counts[c][int32(b.y)+y][int32(b.x)+x] = (nz + nb - 1) / nb
				}
			}
			prev := int32(0)
			if nz <= 64*nb/16 {
				prev = 1
			}
			for i, at := int32(0), 0; at < len(pat); i++ {
				v := int32(0)
				f2 := (i + nb) / nb
				left := (nz - int32(at) + nb - 1) / nb
				cc := base + 458*bc + 37*clusters + (f04Left(left)+f04Freq(f2))*2 + prev
				if pat[at] == int(i) {
					d := int32(rt.Int(1, 1<<20))
					v = 2 * d
					if (at+bi+salt)%2 == 1 {
						v, d = 2*d-1, -d
					}
					at++
					p := hp.order[tt.orderID][c][nb+i]
					y, x := p.Y, p.X
					if b.kind == 0 || b.kind == 4 || b.kind == 6 {
						y, x = p.X, p.Y
					}
					want[c][int32(b.y)*8+y][int32(b.x)*8+x] = d << shift
				}
				put(cc, v)
				prev = 0
				if v != 0 {
					prev = 1
				}
			}
		}
	}
	bad := fail == 2
	i := 0
	f.passes = []Pass{{hfPass: hp}}
	hp.contextStream = entropy.VZStream(495*clusters*presets, func(c int) (int32, error) {
		if i >= len(syms) {
			return 0, errSym
		}
		rt.Assert(int32(c) == ctxs[i], "counts and coefficients are read with the contexts of the format")
		i++
		return syms[i-1], nil
	}, &bad)
	br := &v04Bits{v: uint64(preset)}
	if fail == 3 {
		f.hfg.numHFPresets = 3
		br.v = 3
	}
	hf, err := NewHFCoefficientsWithReader(br, f, 0, 0)
	if fail == 3 {
		rt.Assert(err != nil && br.n == 2, "presets that do not exist are rejected")
		rt.Reach("preset")
		return
	}
	rt.Assert(br.n == 1, "the preset is read")
	if expectErr || bad {
		rt.Assert(err != nil, "impossible counts and corrupt streams are errors")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil && i == len(syms), "all coefficients are read")
	for c := 0; c < 3; c++ {
		for y := 0; y < 16; y++ {
			for x := 0; x < 16; x++ {
				rt.Assert(hf.quantizedCoeffs[c][y][x] == want[c][y][x], "coefficients are placed by the order of their transform and channel")
			}
		}
	}
	rt.Reach("coefficients")
}

func f04NonZero(p int32) int32 {
	if p < 8 {
		return p
	}
	return 4 + min(p, 64)/2
}

func f04Freq(f int32) int32 {
	switch {
	case f < 16:
		return f - 1
	case f < 32:
		return 15 + (f-16)/2
	}
	return 23 + (f-32)/4
}

func f04Left(n int32) int32 {
	for i, t := range []int32{1, 2, 4, 8, 12, 20, 32, 64} {
		if n <= t {
			return []int32{0, 31, 62, 93, 123, 152, 180, 206}[i]
		}
	}
	return 0
}

// VH_V04_BlockContext: the header of the block contexts.
func VH_V04_BlockContext() {
	def := rt.Concrete(rt.Int(0, 1)) == 1
	var n [3]int
	for i := range n {
		n[i] = rt.Concrete(rt.Int(0, 2))
	}
	nq := rt.Concrete(rt.Int(0, 2))
	big := rt.Concrete(rt.Int(0, 1)) == 1
	if big && (def || nq != 2 || n[0] != 2) {
		return
	}
	if big {
		n[0] = 7
	}
	var e v04Put
	if def {
		if n[0]+n[1]+n[2]+nq > 0 {
			return
		}
		e.put(1, 1)
	} else {
		e.put(0, 1)
	}
	var lf [3][]int32
	for i := range n {
		if def {
			break
		}
		e.put(uint64(n[i]), 4)
		for j := 0; j < n[i]; j++ {
			sel := (i + j + nq) % 4
			bits := []int{4, 8, 16, 32}[sel]
			v := rt.U32()
			if bits < 32 {
				v &= 1<<bits - 1
			}
			e.put(uint64(sel), 2)
			e.put(uint64(v), bits)
			u := v + []uint32{0, 16, 272, 65808}[sel]
			s := int32(u >> 1)
			if u&1 == 1 {
				s = -s - 1
			}
			lf[i] = append(lf[i], s)
		}
	}
	var qf []int32
	if !def {
		e.put(uint64(nq), 4)
		for j := 0; j < nq; j++ {
			sel := (j + n[0] + n[1]) % 4
			bits := []int{2, 3, 5, 8}[sel]
			v := uint32(rt.Int(0, 1<<bits-1))
			e.put(uint64(sel), 2)
			e.put(uint64(v), bits)
			qf = append(qf, int32(v)+[]int32{0, 4, 12, 44}[sel]+1)
		}
	}
	size := 39 * (n[0] + 1) * (n[1] + 1) * (n[2] + 1) * (nq + 1)
	asked, max := 0, 0
	rt.Merge(true)
	hf, err := NewHFBlockContextWithReader(jxlio.NewBitStreamReader(bytes.NewReader(append(e.bytes(), 0, 0))), func(r jxlio.BitReader, m []int, maxClusters int) (int, error) {
		asked, max = len(m), maxClusters
		for i := range m {
			m[i] = i % 5
		}
		return 5, nil
	})
	rt.Merge(false)
	if size > 39*64 {
		rt.Assert(err != nil, "too many contexts are rejected")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "block contexts are read")
	if def {
		rt.Assert(hf.numClusters == 15 && hf.numLFContexts == 1 && len(hf.qfThresholds) == 0 && len(hf.clusterMap) == 39, "default contexts are those of the format")
		want := []int{0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6, 7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14}
		for i := range hf.clusterMap {
			k := i
			if k >= 26 {
				k -= 13
			}
			rt.Assert(hf.clusterMap[i] == want[k], "default contexts are those of the format")
		}
		for i := 0; i < 3; i++ {
			rt.Assert(len(hf.lfThresholds[i]) == 0, "default contexts are those of the format")
		}
		rt.Reach("default")
		return
	}
	rt.Assert(asked == size && max == 16 && hf.numClusters == 5 && len(hf.clusterMap) == size, "there is a context for every combination")
	rt.Assert(int(hf.numLFContexts)*39*(nq+1) == size, "there is a context for every combination")
	rt.Assert(len(hf.qfThresholds) == nq, "every threshold is read")
	for j := range qf {
		rt.Assert(hf.qfThresholds[j] == qf[j], "every threshold is read")
	}
	for i := range lf {
		rt.Assert(len(hf.lfThresholds[i]) == n[i], "every threshold is read")
		for j := range lf[i] {
			rt.Assert(hf.lfThresholds[i][j] == lf[i][j], "every threshold is read")
		}
	}
	rt.Reach("thresholds")
}

// v04Put builds bit streams, least significant bit first.
type v04Put struct{ b []byte }

func (s *v04Put) put(v uint64, n int) {
	for i := 0; i < n; i++ {
		s.b = append(s.b, byte(v>>uint(i)&1))
	}
}

func (s *v04Put) bytes() []byte {
	out := make([]byte, (len(s.b)+7)/8)
	for i := range out {
		for j := 0; j < 8 && 8*i+j < len(s.b); j++ {
			out[i] |= s.b[8*i+j] << uint(j)
		}
	}
	return out
}
