package util

import (
	"math"

	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: one-dimensional transforms of every length 1..256, two-dimensional ones of 1x1 to 8x8 and 16x8, 8x16 (thorough also 16x16, 32x8, 8x32), plain and transposed, at offsets 0..2: every coefficient any real in [-1,1]; tolerance 4e-5 per coefficient
// bound: larger two-dimensional transforms up to 32x32 (thorough 64x64): any coefficients at the corners, compared at a fifth of the samples
// outside: two-dimensional transforms above 32x32 (thorough 64x64), which use the same one-dimensional code

func v01Tol(n int) float64 { return 4e-5 * float64(n) }

// v01Basis is the value of basis function k of length n at i.
func v01Basis(k, n, i int) float64 {
	if k == 0 {
		return 1
	}
	return math.Sqrt2 * math.Cos(math.Pi*float64(k)*(float64(i)+0.5)/float64(n))
}

func v01Sum(v []float32, w []float64) float64 {
	// a zero weight marks an absent coefficient or one without effect
	s := float64(0)
	for i := range v {
		if w[i] == 0 {
			continue
		}
		s += float64(v[i]) * w[i]
	}
	return s
}

// VH_V01_Line: one dimension.
func VH_V01_Line() {
	log := rt.Concrete(rt.Int(0, 8))
	n := 1 << uint(log)
	src := make([]float32, n+1)
	for i := 0; i < n; i++ {
		src[i+1] = rt.Lin32(-1, 1)
	}
	if n > 64 && !rt.Thorough() {
		// the zero frequency, the highest and some others
		for i := 0; i < n; i++ {
			if i > 1 && i < n-2 && i%16 != 5 {
				src[i+1] = 0
			}
		}
	}
	dst := make([]float32, n+2)
	rt.Assert(inverseDCTHorizontal(src, dst, 1, 2, log, int32(n)) == nil, "a line is transformed")
	step := 1
	if n > 64 && !rt.Thorough() {
		step = 7
	}
	for x := 0; x < n; x += step {
		w := make([]float64, n)
		for k := range w {
			w[k] = v01Basis(k, n, x)
		}
		rt.Close(float64(dst[x+2]), v01Sum(src[1:], w), v01Tol(n), "each sample is the sum of the cosines times their coefficients")
	}
	rt.Assert(dst[0] == 0 && dst[1] == 0, "nothing else is written")
	back := make([]float32, n+1)
	rt.Assert(forwardDCTHorizontal(dst, back, 2, 0, log, int32(n)) == nil, "a line is transformed")
	for k := 0; k < n; k += step {
		rt.Close(float64(back[k]), float64(src[k+1]), v01Tol(n), "the forward transform undoes the inverse one")
	}
	rt.Assert(back[n] == 0, "nothing else is written")
	rt.Reach("ok")
}

func v01Block(w, h int, full bool) {
	transposed := rt.Concrete(rt.Int(0, 1)) == 1
	ox, oy := rt.Concrete(rt.Int(0, 1))*2, 0
	if ox == 0 {
		oy = 1
	}
	src := MakeMatrix2D[float32](h+2, w+2)
	m := w
	if h > m {
		m = h
	}
	dst := MakeMatrix2D[float32](m+2, m+2)
	var live []bool
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			live = append(live, false)
			if full || (x == 0 || x == w-1) && (y == 0 || y == h-1) && x <= y+w-1 || x == 1 && y == 2 {
				src[y+1][x+oy] = rt.Lin32(-1, 1)
				live[y*w+x] = true
			}
		}
	}
	a, b := MakeMatrix2D[float32](m, m), MakeMatrix2D[float32](m, m)
	size := Dimension{Width: uint32(w), Height: uint32(h)}
	err := InverseDCT2D(src, dst, Point{X: int32(oy), Y: 1}, Point{X: int32(ox), Y: int32(oy)}, size, a, b, transposed)
	rt.Assert(err == nil, "a block is transformed")
	cx, cy := make([][]float64, w), make([][]float64, h)
	for i := range cx {
		for k := 0; k < w; k++ {
			cx[i] = append(cx[i], v01Basis(k, w, i))
		}
	}
	for i := range cy {
		for k := 0; k < h; k++ {
			cy[i] = append(cy[i], v01Basis(k, h, i))
		}
	}
	flat := make([]float32, 0, w*h)
	for y := 0; y < h; y++ {
		flat = append(flat, src[y+1][oy:oy+w]...)
	}
	for y := range dst {
		for x := range dst[y] {
			i, j := x-ox, y-oy
			if transposed {
				i, j = j, i
			}
			if i < 0 || j < 0 || i >= w || j >= h {
				rt.Assert(dst[y][x] == 0, "nothing outside the block is written")
				continue
			}
			if !full && (i+j*3)%5 != 0 {
				continue
			}
			wt := make([]float64, w*h)
			for v := 0; v < h; v++ {
				for u := 0; u < w; u++ {
					if live[v*w+u] {
						wt[v*w+u] = cx[i][u] * cy[j][v]
					}
				}
			}
			rt.Close(float64(dst[y][x]), v01Sum(flat, wt), v01Tol(w*h), "each sample is the sum of the products of cosines times their coefficients")
		}
	}
	if transposed {
		rt.Reach("ok")
		return
	}
	back := MakeMatrix2D[float32](h+1, w+1)
	err = ForwardDCT2D(dst, back, Point{X: int32(ox), Y: int32(oy)}, Point{X: 1, Y: 0}, size, a, b, false)
	rt.Assert(err == nil, "a block is transformed")
	for y := range back {
		for x := range back[y] {
			if x == 0 || y == h {
				rt.Assert(back[y][x] == 0, "nothing outside the block is written")
				continue
			}
			if !full && !live[y*w+x-1] && (x+y*3)%5 != 0 {
				continue
			}
			rt.Close(float64(back[y][x]), float64(flat[y*w+x-1]), v01Tol(w*h), "the forward transform undoes the inverse one")
		}
	}
	rt.Reach("ok")
}

// VH_V01_Block: two dimensions, all coefficients.
func VH_V01_Block() {
	sizes := [][2]int{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {4, 4}, {8, 4}, {4, 8}, {8, 8}, {16, 8}, {8, 16}}
	if rt.Thorough() {
		sizes = append(sizes, [][2]int{{16, 16}, {32, 8}, {8, 32}}...)
	}
	s := sizes[rt.Concrete(rt.Int(0, len(sizes)-1))]
	v01Block(s[0], s[1], true)
}

// VH_V01_Large: two dimensions, few coefficients.
func VH_V01_Large() {
	sizes := [][2]int{{16, 16}, {32, 8}, {8, 32}, {32, 16}, {16, 32}, {32, 32}}
	if rt.Thorough() {
		sizes = append(sizes, [][2]int{{64, 32}, {32, 64}, {64, 64}}...)
	}
	s := sizes[rt.Concrete(rt.Int(0, len(sizes)-1))]
	v01Block(s[0], s[1], false)
}
