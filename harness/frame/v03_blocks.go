package frame

import (
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/util"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: areas of 1x1 to 6x7 blocks and strips across the border of a group, any first three transforms out of ten sizes followed by 8x8 blocks or the same three again; every transform on areas of exactly its size and one block off
// bound: every transform number, every multiplier
// outside: areas whose blocks do not cover them (the decoder accepts them)

type v03Reader struct {
	jxlio.BitReader
	n     uint32
	v     uint64
	calls int
}

func (r *v03Reader) ReadBits(n uint32) (uint64, error) {
	r.n = n
	r.calls++
	return r.v, nil
}

type v03Framer struct{ symFramer }

func (f *v03Framer) getNumLFGroups() uint32 { return 1 }

type v03Stream struct {
	ModularStreamer
	buf  [][][]int32
	runs int
}

func (s *v03Stream) decodeChannels(r jxlio.BitReader, partial bool) error { s.runs++; return nil }
func (s *v03Stream) getDecodedBuffer() [][][]int32                        { return s.buf }

// v03Size is the size in blocks of every transform, height first.
var v03Size = [27][2]int{
	{1, 1}, {1, 1}, {1, 1}, {1, 1}, {2, 2}, {4, 4}, {2, 1}, {1, 2}, {4, 1}, {1, 4}, {4, 2}, {2, 4}, {1, 1}, {1, 1}, {1, 1}, {1, 1}, {1, 1}, {1, 1},
	{8, 8}, {8, 4}, {4, 8}, {16, 16}, {16, 8}, {8, 16}, {32, 32}, {32, 16}, {16, 32},
}

func v03Read(h, w int, types, muls []int32) (*HFMetadata, error, *v03Reader) {
	f := &v03Framer{symFramer: *symFrame(8)}
	lf := &LFGroup{lfGroupID: 2, size: util.Dimension{Width: uint32(w), Height: uint32(h)}, frame: f}
	s := &v03Stream{}
	buf := [][]int32{types, muls}
	r := &v03Reader{v: uint64(len(types) - 1)}
	hf, err := NewHFMetadataWithReader(r, lf, f, func(r jxlio.BitReader, f Framer, index int, ch []ModularChannel) (ModularStreamer, error) {
		rt.Assert(index == 1+2*1+2, "the metadata has its own stream")
		rt.Assert(len(ch) == 4, "the metadata has four channels")
		cw, chh := (w+7)/8, (h+7)/8
		for i := 0; i < 2; i++ {
			rt.Assert(int(ch[i].size.Width) == cw && int(ch[i].size.Height) == chh, "there is a factor for every 64x64 tile")
		}
		rt.Assert(int(ch[2].size.Width) == len(types) && ch[2].size.Height == 2, "there is an entry for every block")
		rt.Assert(int(ch[3].size.Width) == w && int(ch[3].size.Height) == h, "there is a sharpness for every 8x8 area")
		s.buf = [][][]int32{nil, nil, buf, nil}
		return s, nil
	})
	n := uint32(0)
	for 1<<n < h*w {
		n++
	}
	rt.Assert(r.n == n && r.calls == 1, "the number of blocks is coded in as many bits as the area needs")
	rt.Assert(s.runs == 1, "the metadata is decoded")
	return hf, err, r
}

// v03Check places blocks and compares with the format.
func v03Check(h, w int, types []int32) {
	muls := make([]int32, len(types))
	for i := range muls {
		muls[i] = int32(i)
		if i < 4 {
			muls[i] = int32(rt.Int(0, 255))
		}
	}
	hf, err, _ := v03Read(h, w, types, muls)
	// the format: each block goes to the first free place
	own := make([][]int, h)
	for y := range own {
		own[y] = make([]int, w)
	}
	fits := true
	var at [][2]int
	for i, t := range types {
		s := v03Size[t]
		y, x := 0, 0
		for y < h && own[y][x] != 0 {
			x++
			if x == w {
				y, x = y+1, 0
			}
		}
		if y+s[0] > h || x+s[1] > w || x%32+s[1] > 32 || y%32+s[0] > 32 {
			fits = false
			break
		}
		for iy := 0; iy < s[0]; iy++ {
			for ix := 0; ix < s[1]; ix++ {
				if own[y+iy][x+ix] != 0 {
					fits = false
				}
				own[y+iy][x+ix] = i + 1
			}
		}
		if !fits {
			break
		}
		at = append(at, [2]int{y, x})
	}
	if fits {
		rt.Assert(err == nil, "blocks that fit are accepted")
	}
	if err != nil {
		rt.Reach("rejected")
		return
	}
	rt.Assert(len(hf.blockList) == len(types), "every block is placed")
	seen := make([][]int, h)
	for y := range seen {
		seen[y] = make([]int, w)
	}
	for i, p := range hf.blockList {
		s := v03Size[types[i]]
		if fits {
			rt.Assert(int(p.Y) == at[i][0] && int(p.X) == at[i][1], "blocks go to the first free place")
		}
		inside := p.Y >= 0 && p.X >= 0 && int(p.Y)+s[0] <= h && int(p.X)+s[1] <= w
		rt.Assert(inside, "blocks are inside their area")
		rt.Assert(int(p.X)/32 == (int(p.X)+s[1]-1)/32 && int(p.Y)/32 == (int(p.Y)+s[0]-1)/32, "blocks are inside one group")
		for iy := 0; iy < s[0]; iy++ {
			for ix := 0; ix < s[1]; ix++ {
				y, x := int(p.Y)+iy, int(p.X)+ix
				rt.Assert(seen[y][x] == 0, "blocks do not overlap")
				seen[y][x] = i + 1
				tt := hf.dctSelect[y][x]
				rt.Assert(tt != nil && tt.ttType == types[i], "every cell refers to its block's transform")
				rt.Assert(hf.hfMultiplier[y][x] == muls[i]+1, "every cell has its block's multiplier")
			}
		}
	}
	for y := range seen {
		for x := range seen[y] {
			if seen[y][x] == 0 {
				rt.Assert(hf.dctSelect[y][x] == nil, "only blocks fill cells")
			}
		}
	}
	rt.Reach("placed")
}

// VH_V03_Mixed: sequences of transforms.
func VH_V03_Mixed() {
	areas := [][2]int{{1, 1}, {2, 2}, {3, 5}, {4, 4}, {6, 7}}
	a := areas[rt.Concrete(rt.Int(0, len(areas)-1))]
	kinds := []int32{0, 4, 6, 7, 9, 11}
	if rt.Thorough() {
		kinds = []int32{0, 4, 5, 6, 7, 8, 9, 10, 11, 17}
	}
	repeat := rt.Concrete(rt.Int(0, 1)) == 1
	var types []int32
	cells := 0
	var pre []int32
	for i := 0; i < 3 && i < a[0]*a[1]; i++ {
		pre = append(pre, kinds[rt.Concrete(rt.Int(0, len(kinds)-1))])
	}
	for i := 0; cells < a[0]*a[1]; i++ {
		t := int32(0)
		if i < len(pre) {
			t = pre[i]
		} else if repeat {
			t = pre[i%len(pre)]
			if cells+v03Size[t][0]*v03Size[t][1] > a[0]*a[1] {
				t = 0
			}
		}
		types = append(types, t)
		cells += v03Size[t][0] * v03Size[t][1]
	}
	v03Check(a[0], a[1], types)
}

// VH_V03_Border: transforms near the border of a group.
func VH_V03_Border() {
	t := int32(rt.Concrete(rt.Int(0, 26)))
	s := v03Size[t]
	n := rt.Concrete(rt.Int(0, 4))
	lead := 28 + n
	if s[1] > 4 {
		lead = 32 - s[1] + n
		if lead < 0 {
			return
		}
	}
	if s[0] > 8 && !rt.Thorough() {
		return
	}
	// blocks of the same height before the one at the border
	var types []int32
	for x := 0; x < lead; x++ {
		for y := 0; y < 1; y++ {
			types = append(types, 0)
		}
	}
	types = append(types, t)
	v03Check(s[0], 40, types)
}

// VH_V03_Size: transforms on areas of their size.
func VH_V03_Size() {
	t := int32(rt.Concrete(rt.Int(0, 26)))
	dy, dx := rt.Concrete(rt.Int(-1, 1)), rt.Concrete(rt.Int(-1, 1))
	h, w := v03Size[t][0]+dy, v03Size[t][1]+dx
	if h < 1 || w < 1 || h*w > 300 && !rt.Thorough() {
		return
	}
	types := []int32{t}
	for i := v03Size[t][0] * v03Size[t][1]; i < h*w; i++ {
		types = append(types, 0)
	}
	v03Check(h, w, types)
}

// VH_V03_Number: numbers that are not transforms.
func VH_V03_Number() {
	t := rt.I32()
	rt.Assume(t < 0 || t > 26)
	i := rt.Concrete(rt.Int(0, 2))
	types := []int32{0, 0, 0}
	types[i] = t
	_, err, _ := v03Read(2, 2, types, []int32{1, 2, 3})
	rt.Assert(err != nil, "unknown transforms are rejected")
	rt.Reach("rejected")
}
