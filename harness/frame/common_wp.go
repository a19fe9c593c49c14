package frame

import "github.com/kpfaulkner/jxl-go/util"

// m03Ref is the weighted predictor: samples, sub-predictor errors and signed total errors.
type m03Ref struct {
	w    int
	v    []int32
	err  [4][]int32
	tot  []int32
	p1   int32
	p2   int32
	p3   [5]int32
	wt   [4]int64
	sub  [4]int32
	pred int32
}

func m03Set(k int) (p WPParams) {
	switch k {
	case 0:
		p = WPParams{16, 10, 7, 7, 7, 0, 0, [4]int64{13, 12, 12, 12}}
	case 1:
		p = WPParams{31, 1, 1, 30, 9, 17, 5, [4]int64{15, 0, 7, 1}}
	case 2:
		p = WPParams{0, 31, 0, 0, 31, 3, 31, [4]int64{0, 0, 0, 0}}
	case 3:
		p = WPParams{5, 20, 31, 2, 0, 31, 1, [4]int64{1, 15, 15, 15}}
	}
	return
}

func m03New(w, h int, p WPParams) *m03Ref {
	r := &m03Ref{w: w, v: make([]int32, w*h), tot: make([]int32, w*h)}
	for i := range r.err {
		r.err[i] = make([]int32, w*h)
	}
	r.p1, r.p2 = int32(p.param1), int32(p.param2)
	r.p3 = [5]int32{p.param3a, p.param3b, p.param3c, p.param3d, p.param3e}
	r.wt = p.weight
	return r
}

// step computes the prediction (3 fractional bits) and the error property.
func (r *m03Ref) step(x, y int) (pred, maxErr int32) {
	h := mHoodAt(r.v, r.w, x, y)
	n, w, ne, nn, nw := h.n<<3, h.w<<3, h.ne<<3, h.nn<<3, h.nw<<3
	// errors outside of the image are 0, except that the north-west and north-east ones
	// fall back to the north one
	at := func(b []int32, dx, dy int) int32 {
		if y+dy < 0 || x+dx < 0 && dy == 0 {
			return 0
		}
		if x+dx < 0 || x+dx >= r.w {
			dx = 0
		}
		return b[(y+dy)*r.w+x+dx]
	}
	tw, tn, tnw, tne := at(r.tot, -1, 0), at(r.tot, 0, -1), at(r.tot, -1, -1), at(r.tot, 1, -1)
	r.sub[0] = w + ne - n
	r.sub[1] = n - ((tw+tn+tne)*r.p1)>>5
	r.sub[2] = w - ((tw+tn+tnw)*r.p2)>>5
	r.sub[3] = n - (tnw*r.p3[0]+tn*r.p3[1]+tne*r.p3[2]+(nn-n)*r.p3[3]+(nw-w)*r.p3[4])>>5
	var wt [4]int32
	sum := int32(0)
	for i := range wt {
		e := r.err[i]
		s := at(e, 0, -1) + at(e, -1, 0) + at(e, -1, -1) + at(e, -2, 0) + at(e, 1, -1)
		if x+1 == r.w {
			s += at(e, -1, 0)
		}
		shift := int64(util.FloorLog1pUint64(uint64(s))) - 5
		if shift < 0 {
			shift = 0
		}
		wt[i] = int32(4 + (r.wt[i]*m03Div[s>>uint(shift)])>>uint(shift))
		sum += wt[i]
	}
	sh := util.FloorLog1p(int64(sum)-1) - 4
	sum = 0
	acc := int32(0)
	for i := range wt {
		wt[i] >>= uint(sh)
		sum += wt[i]
		acc += r.sub[i] * wt[i]
	}
	acc += sum>>1 - 1
	pred = int32((int64(acc) * m03Div[sum-1]) >> 24)
	// limited to the neighbours unless the errors have the same sign
	if (tn^tw)|(tn^tnw) <= 0 {
		lo, hi := w, w
		if n < lo {
			lo = n
		}
		if n > hi {
			hi = n
		}
		if ne < lo {
			lo = ne
		}
		if ne > hi {
			hi = ne
		}
		if pred < lo {
			pred = lo
		} else if pred > hi {
			pred = hi
		}
	}
	maxErr = tw
	if mAbs(tn) > mAbs(maxErr) {
		maxErr = tn
	}
	if mAbs(tnw) > mAbs(maxErr) {
		maxErr = tnw
	}
	if mAbs(tne) > mAbs(maxErr) {
		maxErr = tne
	}
	r.pred = pred
	return
}

func (r *m03Ref) update(x, y int, v int32) {
	i := y*r.w + x
	r.v[i] = v
	for k := range r.err {
		r.err[k][i] = (mAbs(r.sub[k]-(v<<3)) + 3) >> 3
	}
	r.tot[i] = r.pred - (v << 3)
}

var m03Div = func() (d [64]int64) {
	for i := range d {
		d[i] = (1 << 24) / int64(i+1)
	}
	return
}()
