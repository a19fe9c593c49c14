package frame

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/entropy"
	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: undoing one step for all averages and residuals below 2^16 on channels of 1..5 by 1 or 1..3 (thorough 1..5) by 2, in either direction; restoring all samples below 2^6 (thorough 2^10) of 1..3 (thorough 1..4) pixels in a row or column
// bound: one or two explicit steps, in place and not, on any of 3 channels of 2x2 or 3x2 pixels: one step with all averages and residuals below 2^16, two with fixed ones except for the first residual channel undone, which has all samples below 2^16
// bound: the default steps for 1..4 channels of all sizes 1..40 (thorough 1..300) by 1..40, with 0..1 meta channels, second channel of equal or different size
// outside: larger channels; samples that overflow 32 bits; squeezed meta channels

func m07Tend(b, a, n int32) int32 {
	if b >= a && a >= n {
		d := (4*b - 3*n - a + 6) / 12
		if d-d&1 > 2*(b-a) {
			d = 2*(b-a) + 1
		}
		if d+d&1 > 2*(a-n) {
			d = 2 * (a - n)
		}
		return d
	}
	if b <= a && a <= n {
		d := (4*b - 3*n - a - 6) / 12
		if d+d&1 < 2*(b-a) {
			d = 2*(b-a) - 1
		}
		if d-d&1 < 2*(a-n) {
			d = 2 * (a - n)
		}
		return d
	}
	return 0
}

// m07Inverse rebuilds a row from averages and residuals.
func m07Inverse(avg, res []int32) (out []int32) {
	for i, a := range avg {
		if i >= len(res) {
			out = append(out, a)
			continue
		}
		left, next := a, a
		if i > 0 {
			left = out[2*i-1]
		}
		if i+1 < len(avg) {
			next = avg[i+1]
		}
		d := res[i] + m07Tend(left, a, next)
		f := a + d/2
		out = append(out, f, f-d)
	}
	return
}

// m07Forward splits a row into averages and residuals.
func m07Forward(v []int32) (avg, res []int32) {
	for i := 0; i < len(v); i += 2 {
		if i+1 == len(v) {
			avg = append(avg, v[i])
			continue
		}
		a := v[i] + v[i+1]
		if v[i] > v[i+1] {
			a++
		}
		avg = append(avg, a>>1)
	}
	for i := 0; i+1 < len(v); i += 2 {
		a := avg[i/2]
		left, next := a, a
		if i > 0 {
			left = v[i-1]
		}
		if i/2+1 < len(avg) {
			next = avg[i/2+1]
		}
		res = append(res, v[i]-v[i+1]-m07Tend(left, a, next))
	}
	return
}

type m07Img struct {
	w, h int
	v    []int32
}

func (m *m07Img) line(horizontal bool, i int) (l []int32) {
	if horizontal {
		return m.v[i*m.w : i*m.w+m.w]
	}
	for y := 0; y < m.h; y++ {
		l = append(l, m.v[y*m.w+i])
	}
	return
}

func (m *m07Img) set(horizontal bool, i int, l []int32) {
	for k := range l {
		if horizontal {
			m.v[i*m.w+k] = l[k]
		} else {
			m.v[k*m.w+i] = l[k]
		}
	}
}

// squeeze splits m in place and returns the residual.
func (m *m07Img) squeeze(horizontal bool) *m07Img {
	a := m07Img{w: m.w, h: m.h}
	r := &m07Img{w: m.w, h: m.h}
	n := m.h
	if horizontal {
		a.w, r.w = (m.w+1)/2, m.w/2
	} else {
		a.h, r.h = (m.h+1)/2, m.h/2
		n = m.w
	}
	a.v, r.v = make([]int32, a.w*a.h), make([]int32, r.w*r.h)
	for i := 0; i < n; i++ {
		x, y := m07Forward(m.line(horizontal, i))
		a.set(horizontal, i, x)
		r.set(horizontal, i, y)
	}
	*m = a
	return r
}

// VH_M07_Inverse: undoing one step.
func VH_M07_Inverse() {
	horizontal := rt.Concrete(rt.Int(0, 1)) == 1
	n := rt.Concrete(rt.Int(1, 5))
	k := rt.Concrete(rt.Int(1, 2))
	rt.Assume(rt.Thorough() || k == 1 || n < 4)
	rt.Merge(true)
	na, nr := (n+1)/2, n/2
	dim := func(l int) *m07Img {
		m := &m07Img{w: l, h: k}
		if !horizontal {
			m.w, m.h = k, l
		}
		m.v = mSyms(l*k, 1<<16)
		return m
	}
	a, r := dim(na), dim(nr)
	want := dim(n)
	for i := 0; i < k; i++ {
		want.set(horizontal, i, m07Inverse(a.line(horizontal, i), r.line(horizontal, i)))
	}
	rt.Merge(false)
	ms := &ModularStream{frame: symFrame(8)}
	ms.squeezeMap = map[int][]SqueezeParam{0: {{horizontal: horizontal, inPlace: true, beginC: 0, numC: 1}}}
	ms.transforms = []TransformInfo{{tr: SQUEEZE}}
	ms.channels = []*ModularChannel{mFilled(a.w, a.h, a.v), mFilled(r.w, r.h, r.v)}
	rt.Merge(true)
	err := ms.applyTransforms()
	rt.Merge(false)
	rt.Assert(err == nil, "undoing a squeeze succeeds")
	rt.Assert(len(ms.channels) == 1, "the residual channel is gone")
	c := ms.channels[0]
	rt.Assert(int(c.size.Width) == want.w && int(c.size.Height) == want.h, "the channel has its full size")
	for i, v := range want.v {
		rt.Assert(c.buffer[i/want.w][i%want.w] == v, "averages and residuals are combined as the format says")
	}
	rt.Reach("undone")
}

// VH_M07_RoundTrip: a squeezed row is restored.
func VH_M07_RoundTrip() {
	horizontal := rt.Concrete(rt.Int(0, 1)) == 1
	max, top := 3, int32(1<<6)
	if rt.Thorough() {
		max, top = 4, 1<<10
	}
	n := rt.Concrete(rt.Int(1, max))
	rt.Merge(true)
	m := &m07Img{w: n, h: 1, v: mSyms(n, top)}
	if !horizontal {
		m.w, m.h = 1, n
	}
	orig := append([]int32{}, m.v...)
	r := m.squeeze(horizontal)
	rt.Merge(false)
	ms := &ModularStream{frame: symFrame(8)}
	ms.squeezeMap = map[int][]SqueezeParam{0: {{horizontal: horizontal, inPlace: true, beginC: 0, numC: 1}}}
	ms.transforms = []TransformInfo{{tr: SQUEEZE}}
	ms.channels = []*ModularChannel{mFilled(m.w, m.h, m.v), mFilled(r.w, r.h, r.v)}
	rt.Merge(true)
	err := ms.applyTransforms()
	rt.Merge(false)
	rt.Assert(err == nil && len(ms.channels) == 1, "undoing a squeeze succeeds")
	for i, v := range orig {
		got := ms.channels[0].buffer[0]
		x := i
		if !horizontal {
			got, x = ms.channels[0].buffer[i], 0
		}
		rt.Assert(got[x] == v, "undoing a squeeze restores the samples")
	}
	rt.Reach("restored")
}

// m07Stream reads a stream's header with the given transforms.
func m07Stream(bits *mBits, cs []ModularChannel) (*ModularStream, error) {
	fr := symFrame(8)
	real, _ := entropy.NewEntropyStreamWithReaderAndNumDists(jxlio.NewBitStreamReader(bytes.NewReader([]byte{0x10, 0, 0, 0, 0, 0, 0, 0, 0, 0})), 1, entropy.ReadClusterMap)
	fr.tree = &MATreeNode{stream: real, property: -1}
	bits.put(0, 64)
	st, err := NewModularStreamWithStreamIndex(jxlio.NewBitStreamReader(bytes.NewReader(bits.bytes())), fr, 0, cs)
	if err != nil {
		return nil, err
	}
	ms := st.(*ModularStream)
	ms.stream = nil
	return ms, nil
}

// unsqueeze is the inverse of squeeze by the format's definition.
func (m *m07Img) unsqueeze(horizontal bool, r *m07Img) {
	o := m07Img{w: m.w, h: m.h}
	n := m.h
	if horizontal {
		o.w += r.w
	} else {
		o.h += r.h
		n = m.w
	}
	o.v = make([]int32, o.w*o.h)
	for i := 0; i < n; i++ {
		o.set(horizontal, i, m07Inverse(m.line(horizontal, i), r.line(horizontal, i)))
	}
	*m = o
}

// VH_M07_Steps: explicit steps on some of three channels.
func VH_M07_Steps() {
	w := rt.Concrete(rt.Int(2, 3))
	const h = 2
	steps := rt.Concrete(rt.Int(1, 2))
	bits := &mBits{}
	bits.put(1, 1) // global tree
	bits.put(1, 1) // default predictor
	bits.put(1, 2) // one transform
	bits.put(2, 2) // squeeze
	bits.put(1, 2)
	bits.put(uint64(steps-1), 4)
	var list []*m07Img
	for i := 0; i < 3; i++ {
		list = append(list, &m07Img{w: w, h: h, v: make([]int32, w*h)})
	}
	type step struct {
		horizontal     bool
		begin, num, at int
	}
	var done []step
	for s := 0; s < steps; s++ {
		horizontal := rt.Concrete(rt.Int(0, 1))
		inPlace := rt.Concrete(rt.Int(0, 1))
		begin := rt.Concrete(rt.Int(0, 2))
		num := rt.Concrete(rt.Int(1, 3))
		rt.Assume(begin+num <= 3)
		rt.Assume(rt.Thorough() || s == 0 && w == 2 || s == 1 && horizontal == 1 && num == 1 && begin < 2 || num == 2 && begin == 1)
		bits.put(uint64(horizontal), 1)
		bits.put(uint64(inPlace), 1)
		bits.put(0, 2)
		bits.put(uint64(begin), 3)
		bits.put(uint64(num-1), 2)
		at := len(list)
		if inPlace == 1 {
			at = begin + num
		}
		for c := begin; c < begin+num; c++ {
			r := list[c].squeeze(horizontal == 1)
			k := at + c - begin
			list = append(list[:k:k], append([]*m07Img{r}, list[k:]...)...)
		}
		done = append(done, step{horizontal == 1, begin, num, at})
	}
	ms, err := m07Stream(bits, []ModularChannel{*mChannel(w, h), *mChannel(w, h), *mChannel(w, h)})
	rt.Assert(err == nil, "the squeeze steps are accepted")
	rt.Assert(len(ms.channels) == len(list), "every step adds a residual per channel")
	rt.Merge(true)
	for i, m := range list {
		c := ms.channels[i]
		rt.Assert(int(c.size.Width) == m.w && int(c.size.Height) == m.h, "sizes of averages and residuals")
		c.allocate()
		if last := done[len(done)-1]; steps == 1 || i == last.at {
			m.v = mSyms(m.w*m.h, 1<<16)
		} else {
			m.v = make([]int32, m.w*m.h)
			for k := range m.v {
				m.v[k] = int32((i*37+k*k*11)%101 - 50)
			}
		}
		for k, v := range m.v {
			c.buffer[k/m.w][k%m.w] = v
		}
	}
	for s := len(done) - 1; s >= 0; s-- {
		d := done[s]
		res := append([]*m07Img{}, list[d.at:d.at+d.num]...)
		list = append(list[:d.at:d.at], list[d.at+d.num:]...)
		for i, r := range res {
			list[d.begin+i].unsqueeze(d.horizontal, r)
		}
	}
	err = ms.applyTransforms()
	rt.Merge(false)
	rt.Assert(err == nil && len(ms.channels) == 3, "undoing the steps succeeds")
	for i := range list {
		for k, v := range list[i].v {
			rt.Assert(ms.channels[i].buffer[k/w][k%w] == v, "undoing the steps combines the channels as the format says")
		}
	}
	rt.Reach("restored")
}

type m07Chan struct {
	w, h, hs, vs int
}

// VH_M07_Default: the default steps.
func VH_M07_Default() {
	n := rt.Concrete(rt.Int(1, 4))
	meta := rt.Concrete(rt.Int(0, 1))
	equal := rt.Concrete(rt.Int(0, 1)) == 1
	maxW := 40
	if rt.Thorough() {
		maxW = 300
	}
	w, h := rt.Int(1, maxW), rt.Int(1, 40)
	bits := &mBits{}
	bits.put(1, 1)
	bits.put(1, 1)
	if meta == 1 {
		bits.put(2, 2) // two transforms
		bits.put(0, 4)
	} else {
		bits.put(1, 2)
	}
	var list []m07Chan
	var cs []ModularChannel
	if meta == 1 {
		// a palette of one channel for the first one; the meta channel comes in front
		bits.put(1, 2)
		bits.put(0, 5) // begin 0
		bits.put(0, 2) // one channel
		bits.put(0, 2)
		bits.put(5, 8) // five colours
		bits.put(0, 2) // no deltas
		bits.put(0, 4)
		list = append(list, m07Chan{5, 1, -1, -1})
	}
	bits.put(2, 2)
	bits.put(0, 2) // default steps
	for i := 0; i < n; i++ {
		c := m07Chan{w, h, 0, 0}
		if i == 1 && !equal {
			c.w++
		}
		list = append(list, c)
		cs = append(cs, *NewModularChannelWithAllParams(int32(c.h), int32(c.w), 0, 0, false))
	}
	step := func(horizontal, inPlace bool, begin, num int) {
		at := len(list)
		if inPlace {
			at = begin + num
		}
		for c := begin; c < begin+num; c++ {
			r := list[c]
			if horizontal {
				r.w, r.hs = list[c].w/2, r.hs+1
				list[c].w, list[c].hs = (list[c].w+1)/2, r.hs
			} else {
				r.h, r.vs = list[c].h/2, r.vs+1
				list[c].h, list[c].vs = (list[c].h+1)/2, r.vs
			}
			k := at + c - begin
			list = append(list[:k:k], append([]m07Chan{r}, list[k:]...)...)
		}
	}
	if n > 2 && equal {
		step(true, false, meta+1, 2)
		step(false, false, meta+1, 2)
	}
	if h >= w && h > 8 {
		step(false, true, meta, n)
		h = (h + 1) / 2
	}
	for w > 8 || h > 8 {
		if w > 8 {
			step(true, true, meta, n)
			w = (w + 1) / 2
		}
		if h > 8 {
			step(false, true, meta, n)
			h = (h + 1) / 2
		}
	}
	ms, err := m07Stream(bits, cs)
	rt.Assert(err == nil, "default squeeze steps are accepted")
	rt.Assert(len(ms.channels) == len(list), "the number of default squeeze steps")
	for i, m := range list {
		c := ms.channels[i]
		rt.Assert(int(c.size.Width) == m.w && int(c.size.Height) == m.h && int(c.hshift) == m.hs && int(c.vshift) == m.vs, "the default squeeze steps")
	}
	rt.Reach("read")
}
