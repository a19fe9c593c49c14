package util

import (
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: logarithms, divisions, clamps, absolute values: every 32-bit and 64-bit value; maxima and minima of 1..4 values; mirrored coordinates of planes of 1..300 samples from 3 sizes outside; matrix products: every left matrix with entries in [-4,4] times 2 fixed right ones of up to 3x3 and the reverse; inverses of 3x3 matrices with any 1 entry (thorough: 2) of quarters in [-2,2); slices, matrices, comparisons and queues of up to 4 (thorough 6) elements or operations
// outside: larger matrices; double-ended queues of more operations

func u01Bits(x uint64) int {
	n := 0
	for i := 0; i < 64; i++ {
		if x>>uint(i) != 0 {
			n = i + 1
		}
	}
	return n
}

// VH_U01_Log: logarithms.
func VH_U01_Log() {
	rt.Merge(true)
	x := rt.U64()
	n := u01Bits(x)
	a, b := CeilLog1p(x), CeilLog1pUint64(x)
	rt.Assert(a == n && b == n, "ceil(log2(x+1)) is the number of significant bits")
	rt.Assert(x == 0 || CeilLog2(x) == u01Bits(x-1), "ceil(log2(x)) is the number of significant bits of x-1")
	f, g := FloorLog1p(x), FloorLog1pUint64(x)
	if x != ^uint64(0) {
		rt.Assert(int(f) == u01Bits(x+1)-1 && int(g) == u01Bits(x+1)-1, "floor(log2(x+1))")
	}
	y := rt.U32()
	rt.Assert(CeilLog1p(y) == u01Bits(uint64(y)) && int(FloorLog1p(y)) == u01Bits(uint64(y)+1)-1, "logarithms of 32-bit values")
	z := rt.I32()
	rt.Assume(z >= 0)
	rt.Assert(CeilLog1p(z) == u01Bits(uint64(z)) && int(FloorLog1p(z)) == u01Bits(uint64(z)+1)-1, "logarithms of signed values")
	rt.Assert(z == 0 || CeilLog2(z) == u01Bits(uint64(z-1)), "logarithms of signed values")
	w := rt.U8()
	rt.Assert(CeilLog1p(w) == u01Bits(uint64(w)) && int(FloorLog1p(w)) == u01Bits(uint64(w)+1)-1, "logarithms of 8-bit values")
	rt.Merge(false)
	rt.Reach("ok")
}

// VH_U01_Div: ceiling division.
func VH_U01_Div() {
	shift := rt.Int(0, 15)
	a := rt.U32()
	d := uint32(1) << uint(shift)
	rt.Assert(uint64(CeilDiv(a, d)) == (uint64(a)+uint64(d)-1)>>uint(shift), "division rounds up")
	n, m := uint32(rt.U16()), uint32(rt.U8())
	rt.Assume(m > 0)
	q := CeilDiv(n, m)
	rt.Assert(uint64(q)*uint64(m) >= uint64(n) && (q == 0 || uint64(q-1)*uint64(m) < uint64(n)), "division rounds up")
	rt.Reach("ok")
}

// VH_U01_Clamp: clamps.
func VH_U01_Clamp() {
	rt.Merge(true)
	v, a, b, c := rt.I32(), rt.I32(), rt.I32(), rt.I32()
	lo, hi := a, b
	if lo > hi {
		lo, hi = hi, lo
	}
	ref := func(v, lo, hi int32) int32 {
		if v < lo {
			return lo
		}
		if v > hi {
			return hi
		}
		return v
	}
	rt.Assert(Clamp3(v, a, b) == ref(v, lo, hi), "the value is limited to the range of two bounds")
	if c < lo {
		lo = c
	}
	if c > hi {
		hi = c
	}
	rt.Assert(Clamp(v, a, b, c) == ref(v, lo, hi), "the value is limited to the range of three bounds")
	rt.Assert(v == -1<<31 || Abs(v) >= 0 && (Abs(v) == v || Abs(v) == -v), "absolute values")
	w := rt.I64()
	rt.Assert(w == -1<<63 || Abs(w) >= 0 && (Abs(w) == w || Abs(w) == -w), "absolute values")
	rt.Merge(false)
	rt.Reach("ok")
}

// VH_U01_ClampFloat: clamps of floats.
func VH_U01_ClampFloat() {
	v, a, b := rt.F32(), rt.F32(), rt.F32()
	rt.Assume(v == v && a == a && b == b)
	r := Clamp3Float32(v, a, b)
	rt.Assert(r >= a && r <= b || r >= b && r <= a, "the result is between the bounds")
	rt.Assert(r == v || r == a || r == b, "the result is the value or a bound")
	rt.Assert(r == v || v < a && v < b || v > a && v > b, "a value between the bounds is kept")
	rt.Reach("ok")
}

// VH_U01_Extremes: maxima and minima.
func VH_U01_Extremes() {
	n := rt.Concrete(rt.Int(1, 4))
	var l []int32
	for i := 0; i < n; i++ {
		l = append(l, rt.I32())
	}
	rt.Merge(true)
	lo, hi := Min(l...), Max(l...)
	any, all := [2]bool{}, [2]bool{true, true}
	for _, v := range l {
		any[0], any[1] = any[0] || v == lo, any[1] || v == hi
		all[0], all[1] = all[0] && v >= lo, all[1] && v <= hi
	}
	rt.Assert(any[0] && any[1] && all[0] && all[1], "maxima and minima of integers")
	rt.Merge(false)
	a, b := rt.U32(), rt.U32()
	rt.Assert(Max(a, b) >= a && Max(a, b) >= b && Min(a, b) <= a && Min(a, b) <= b, "maxima and minima of unsigned integers")
	f, g := rt.F32(), rt.F32()
	m, o := Max(f, g), Min(f, g)
	if f != f || g != g {
		rt.Assert(m != m && o != o, "no number has no maximum or minimum")
	} else {
		rt.Assert(m >= f && m >= g && (m == f || m == g) && o <= f && o <= g && (o == f || o == g), "maxima and minima of floats")
	}
	rt.Reach("ok")
}

// VH_U01_Mirror: mirrored coordinates.
func VH_U01_Mirror() {
	s := rt.Concrete(rt.Int(1, 8))
	if rt.Bool() {
		s = []int{9, 16, 33, 100, 256, 300}[rt.Concrete(rt.Int(0, 5))]
	}
	c := rt.Int(-3*s, 4*s)
	got := int(MirrorCoordinate(int32(c), int32(s)))
	rt.Assert(got >= 0 && got < s, "a mirrored coordinate is inside")
	k := c + 4*s
	for i := 0; i < 8; i++ {
		// the pattern repeats every two sizes
		if k >= 2*s {
			k -= 2 * s
		}
	}
	if k >= s {
		k = 2*s - 1 - k
	}
	rt.Assert(got == k, "coordinates outside are mirrored at the edges, which repeat")
	rt.Reach("ok")
}

func u01Fixed(n, m, k int) [][]float32 {
	r := make([][]float32, n)
	for i := range r {
		for j := 0; j < m; j++ {
			r[i] = append(r[i], float32((i*7+j*3+k*5)%9)-3.5)
		}
	}
	return r
}

func u01Lin(n, m int) [][]float32 {
	r := make([][]float32, n)
	for i := range r {
		for j := 0; j < m; j++ {
			r[i] = append(r[i], rt.Lin32(-4, 4))
		}
	}
	return r
}

// VH_U01_Multiply: products.
func VH_U01_Multiply() {
	n, m, k := rt.Concrete(rt.Int(1, 3)), rt.Concrete(rt.Int(1, 3)), rt.Concrete(rt.Int(1, 3))
	var a, b [][]float32
	if rt.Concrete(rt.Int(0, 1)) == 0 {
		a, b = u01Lin(n, m), u01Fixed(m, k, 1)
	} else {
		a, b = u01Fixed(n, m, 2), u01Lin(m, k)
	}
	check := func(got [][]float32, err error) {
		rt.Assert(err == nil && len(got) == n && len(got[0]) == k, "a product has its size")
		for i := range got {
			for j := range got[i] {
				s := float64(0)
				for l := 0; l < m; l++ {
					if i == 0 && j == 0 && l == 0 {
						s = float64(a[i][l]) * float64(b[l][j])
					} else {
						s += float64(a[i][l]) * float64(b[l][j])
					}
				}
				rt.Close(float64(got[i][j]), s, 1e-4, "an entry of a product is the sum of the products of row and column")
			}
		}
	}
	check(MatrixMatrixMultiply(a, b))
	check(MatrixMultiply(a, b))
	check(MatrixMultiply(a, MatrixIdentity(m), b))
	rt.Merge(false)
	col := make([]float32, m)
	for i := range col {
		col[i] = b[i][0]
	}
	v, err := MatrixVectorMultiply(a, col)
	rt.Assert(err == nil && len(v) == n, "a product with a vector has its size")
	for i := range v {
		s := float64(0)
		for l := 0; l < m; l++ {
			s += float64(a[i][l]) * float64(col[l])
		}
		rt.Close(float64(v[i]), s, 1e-4, "an entry of a product with a vector")
	}
	// entries beyond the matrix are kept
	extra := []float32{rt.F32(), rt.F32()}
	v, err = MatrixVectorMultiply(a, append(append([]float32{}, col...), extra...))
	rt.Assert(err == nil && len(v) == n+2 && rt.Same(v[n], extra[0]) && rt.Same(v[n+1], extra[1]), "entries beyond the matrix are kept")
	_, err = MatrixMatrixMultiply(a, u01Fixed(m+1, k, 0))
	rt.Assert(err != nil, "sizes that do not match are refused")
	_, err = MatrixVectorMultiply(u01Fixed(n, m+1, 0), col)
	rt.Assert(err != nil, "sizes that do not match are refused")
	rt.Reach("ok")
}

// VH_U01_Transpose: transposes with offsets.
func VH_U01_Transpose() {
	w, h := rt.Concrete(rt.Int(1, 3)), rt.Concrete(rt.Int(1, 3))
	sx, sy := rt.Concrete(rt.Int(0, 1)), rt.Concrete(rt.Int(0, 1))
	dx, dy := rt.Concrete(rt.Int(0, 1)), rt.Concrete(rt.Int(0, 1))
	src := MakeMatrix2D[float32](h+1, w+1)
	dst := MakeMatrix2D[float32](w+1, h+1)
	for i := range src {
		for j := range src[i] {
			src[i][j] = rt.F32()
			dst[j][i] = -7
		}
	}
	TransposeMatrixInto(src, dst, Point{X: int32(sx), Y: int32(sy)}, Point{X: int32(dx), Y: int32(dy)}, Point{X: int32(w), Y: int32(h)})
	for y := range dst {
		for x := range dst[y] {
			i, j := x-dx, y-dy
			if i >= 0 && i < h && j >= 0 && j < w {
				rt.Assert(rt.Same(dst[y][x], src[sy+i][sx+j]), "rows and columns are exchanged")
			} else {
				rt.Assert(dst[y][x] == -7, "nothing outside is written")
			}
		}
	}
	t := TransposeMatrix(src, Point{X: int32(w), Y: int32(h)})
	rt.Assert(len(t) == w && len(t[0]) == h, "the size of a transpose")
	for y := range t {
		for x := range t[y] {
			rt.Assert(rt.Same(t[y][x], src[x][y]), "rows and columns are exchanged")
		}
	}
	rt.Reach("ok")
}

// VH_U01_Invert: inverses.
func VH_U01_Invert() {
	base := [][]float32{{1, 0.5, -0.25}, {0, 2, 0.25}, {-0.5, 0, 1}}
	free := 1
	if rt.Thorough() {
		free = 2
	}
	at := rt.Concrete(rt.Int(0, 8))
	for i := 0; i < free; i++ {
		k := (at + i*4) % 9
		base[k/3][k%3] = float32(rt.Concrete(rt.Int(-8, 7))) / 4
	}
	// the determinant in units of 1/64
	e := func(i, j int) int { return int(base[i][j] * 4) }
	det := e(0, 0)*(e(1, 1)*e(2, 2)-e(1, 2)*e(2, 1)) - e(0, 1)*(e(1, 0)*e(2, 2)-e(1, 2)*e(2, 0)) + e(0, 2)*(e(1, 0)*e(2, 1)-e(1, 1)*e(2, 0))
	inv := InvertMatrix3x3(base)
	if det == 0 {
		rt.Assert(inv == nil, "a singular matrix has no inverse")
		rt.Reach("singular")
		return
	}
	rt.Assert(len(inv) == 3, "a regular matrix has an inverse")
	cof := func(i, j int) int {
		a, b, c, d := (i+1)%3, (i+2)%3, (j+1)%3, (j+2)%3
		return e(a, c)*e(b, d) - e(a, d)*e(b, c)
	}
	for i := 0; i < 3; i++ {
		for j := 0; j < 3; j++ {
			d := inv[i][j]*float32(det) - 4*float32(cof(j, i))
			rt.Assert(d < 0.01 && d > -0.01, "the inverse is the adjugate over the determinant")
		}
	}
	rt.Reach("inverted")
}

// VH_U01_Make: matrices are rectangular, zero and not shared.
func VH_U01_Make() {
	a, b, c, d := rt.Concrete(rt.Int(0, 2)), rt.Concrete(rt.Int(0, 2)), rt.Concrete(rt.Int(1, 2)), rt.Concrete(rt.Int(1, 2))
	m := MakeMatrix4D[int32](a, b, c, d)
	rt.Assert(len(m) == a, "the first dimension")
	n := int32(0)
	for i := range m {
		rt.Assert(len(m[i]) == b, "the second dimension")
		for j := range m[i] {
			rt.Assert(len(m[i][j]) == c, "the third dimension")
			for k := range m[i][j] {
				rt.Assert(len(m[i][j][k]) == d, "the fourth dimension")
				for l := range m[i][j][k] {
					rt.Assert(m[i][j][k][l] == 0, "all is zero")
					n++
					m[i][j][k][l] = n
				}
			}
		}
	}
	n = 0
	for i := range m {
		for j := range m[i] {
			for k := range m[i][j] {
				for l := range m[i][j][k] {
					n++
					rt.Assert(m[i][j][k][l] == n, "no two entries share memory")
				}
			}
		}
	}
	m3 := MakeMatrix3D[float32](a, c, d)
	m2 := MakeMatrix2D[float32](c, d)
	rt.Assert(len(m3) == a && (a == 0 || len(m3[0]) == c && len(m3[0][0]) == d && m3[a-1][c-1][d-1] == 0), "three dimensions")
	rt.Assert(len(m2) == c && len(m2[c-1]) == d && m2[c-1][d-1] == 0, "two dimensions")
	v := rt.U16()
	s := MakeSliceWithDefault(a+b, v)
	rt.Assert(len(s) == a+b, "the length of a slice")
	for i := range s {
		rt.Assert(s[i] == v, "a slice's default")
	}
	rt.Reach("ok")
}

// VH_U01_Compare: comparisons.
func VH_U01_Compare() {
	eq := func(x, y int32) bool { return x == y }
	dim := func() [][]int32 {
		h, w := rt.Concrete(rt.Int(0, 2)), rt.Concrete(rt.Int(1, 2))
		m := MakeMatrix2D[int32](h, w)
		for i := range m {
			for j := range m[i] {
				m[i][j] = rt.I32()
			}
		}
		return m
	}
	a, b := dim(), dim()
	rt.Merge(true)
	same := len(a) == len(b)
	for i := range a {
		if same && len(a[i]) != len(b[i]) {
			same = false
		}
		for j := range a[i] {
			if same && a[i][j] != b[i][j] {
				same = false
			}
		}
	}
	r2 := CompareMatrix2D(a, b, eq)
	r3 := CompareMatrix3D([][][]int32{a}, [][][]int32{b}, eq)
	r4 := CompareMatrix3D([][][]int32{a}, [][][]int32{b, b}, eq)
	rt.Merge(false)
	rt.Assert(r2 == same && r3 == same && !r4, "matrices are equal when their sizes and all entries are")
	if len(a) == len(b) && (len(a) == 0 || len(a[0]) == len(b[0])) {
		rt.Assert(Matrix3Equal([][][]int32{a}, [][][]int32{b}) == same, "matrices of one size are equal when all entries are")
	}
	rt.Reach("ok")
}

// VH_U01_Insert: insertion.
func VH_U01_Insert() {
	n := rt.Concrete(rt.Int(0, 4))
	spare := rt.Concrete(rt.Int(0, 1))
	s := make([]uint16, n, n+spare)
	p := make([]*uint16, n, n+spare)
	was := make([]uint16, n)
	for i := range s {
		s[i] = rt.U16()
		was[i] = s[i]
		p[i] = &was[i]
	}
	at := rt.Concrete(rt.Int(0, n))
	v := rt.U16()
	r := Add(s, at, v)
	q := AddToSlice(p, at, &v)
	rt.Assert(len(r) == n+1 && len(q) == n+1, "inserting makes a slice longer by one")
	for i := range r {
		switch {
		case i < at:
			rt.Assert(r[i] == was[i] && q[i] == &was[i], "what is before the new element stays")
		case i == at:
			rt.Assert(r[i] == v && q[i] == &v, "the new element is at its place")
		default:
			rt.Assert(r[i] == was[i-1] && q[i] == &was[i-1], "what follows the new element moves by one")
		}
	}
	for i := range s {
		rt.Assert(s[i] == was[i] && p[i] == &was[i], "the original slice is unchanged")
	}
	f := []float32{1, 2, 3, 4}
	x := rt.F32()
	lo, hi := rt.Concrete(rt.Int(0, 4)), rt.Concrete(rt.Int(0, 4))
	FillFloat32(f, uint32(lo), uint32(hi), x)
	for i := range f {
		if i >= lo && i < hi {
			rt.Assert(rt.Same(f[i], x), "the range is filled")
		} else {
			rt.Assert(f[i] == float32(i+1), "the rest is not")
		}
	}
	rt.Assert(IfThenElse(v > 5, 1, 2) == 1 == (v > 5), "a choice")
	rt.Reach("ok")
}

// VH_U01_Deque: histories of a double-ended queue.
func VH_U01_Deque() {
	n := 5
	if rt.Thorough() {
		n = 7
	}
	d := NewDeque[uint16]()
	var ref []uint16
	for i := 0; i < n; i++ {
		switch rt.Concrete(rt.Int(0, 3)) {
		case 0:
			v := rt.U16()
			d.AddFirst(v)
			ref = append([]uint16{v}, ref...)
		case 1:
			v := rt.U16()
			d.AddLast(v)
			ref = append(ref, v)
		case 2:
			x := d.RemoveFirst()
			if len(ref) == 0 {
				rt.Assert(x == nil, "an empty queue has no first element")
				break
			}
			rt.Assert(x != nil && *x == ref[0], "the first element is removed")
			ref = ref[1:]
		case 3:
			x := d.RemoveLast()
			if len(ref) == 0 {
				rt.Assert(x == nil, "an empty queue has no last element")
				break
			}
			rt.Assert(x != nil && *x == ref[len(ref)-1], "the last element is removed")
			ref = ref[:len(ref)-1]
		}
		rt.Assert(d.IsEmpty() == (len(ref) == 0), "a queue is empty when all that was added is removed")
	}
	rt.Reach("ok")
}

// VH_U01_Rectangle: the corner of a rectangle.
func VH_U01_Rectangle() {
	x, y := rt.Int(-1<<28, 1<<28), rt.Int(-1<<28, 1<<28)
	w, h := rt.Int(0, 1<<29), rt.Int(0, 1<<29)
	p := Rectangle{Origin: *NewPoint(int32(y), int32(x)), Size: Dimension{Width: uint32(w), Height: uint32(h)}}.ComputeLowerCorner()
	rt.Assert(int(p.X) == x+w && int(p.Y) == y+h, "the lower corner is the origin plus the size")
	rt.Reach("ok")
}
