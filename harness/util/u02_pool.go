package util

import (
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: histories of 4 (thorough 6) requests and returns of 2- and 3-dimensional float and integer buffers of 2 sizes each, returned in any order, with any contents; the runtime's pool hands out any returned buffer or a new one; one returned buffer may be ragged
// outside: returning a buffer twice, using a buffer after returning it; concurrent requests

func u02Steps() int {
	if rt.Thorough() {
		return 6
	}
	return 4
}

// VH_U02_Float3D: histories of three-dimensional float buffers.
func VH_U02_Float3D() { u02Hist3[float32]() }

// VH_U02_Int3D: histories of three-dimensional integer buffers.
func VH_U02_Int3D() { u02Hist3[int32]() }

// VH_U02_Other3D: types that are not pooled.
func VH_U02_Other3D() { u02Hist3[uint8]() }

// VH_U02_Float2D: histories of two-dimensional float buffers.
func VH_U02_Float2D() { u02Hist2[float32]() }

// VH_U02_Int2D: histories of two-dimensional integer buffers.
func VH_U02_Int2D() { u02Hist2[int32]() }

type u02Num interface{ ~int32 | ~float32 | ~uint8 }

func u02Hist3[T u02Num]() {
	type buf struct {
		m    [][][]T
		mark T
	}
	var live []buf
	mark := T(1)
	check := func() {
		for _, b := range live {
			for _, p := range b.m {
				for _, r := range p {
					for _, v := range r {
						rt.Assert(v == b.mark, "no two buffers in use share memory")
					}
				}
			}
		}
	}
	sizes := [][3]int{{1, 2, 1}, {2, 1, 2}, {1, 1, 2}}
	for i := 0; i < u02Steps(); i++ {
		op := rt.Concrete(rt.Int(0, 2+len(live)))
		if op < len(sizes) {
			s := sizes[op]
			m := MakeMatrix3DPooled[T](s[0], s[1], s[2])
			rt.Assert(len(m) == s[0], "a buffer has the requested size")
			for _, p := range m {
				rt.Assert(len(p) == s[1], "a buffer has the requested size")
				for _, r := range p {
					rt.Assert(len(r) == s[2], "a buffer has the requested size")
					for k := range r {
						rt.Assert(r[k] == 0, "a buffer is all zero")
						r[k] = mark
					}
				}
			}
			live = append(live, buf{m, mark})
			mark++
		} else {
			b := live[op-len(sizes)]
			live = append(live[:op-len(sizes):op-len(sizes)], live[op-len(sizes)+1:]...)
			ReturnMatrix3DToPool(b.m)
		}
		check()
	}
	rt.Reach("ok")
}

func u02Hist2[T u02Num]() {
	type buf struct {
		m    [][]T
		mark T
	}
	var live []buf
	mark := T(1)
	sizes := [][2]int{{1, 2}, {2, 1}, {2, 2}}
	for i := 0; i < u02Steps(); i++ {
		op := rt.Concrete(rt.Int(0, 2+len(live)))
		if op < len(sizes) {
			s := sizes[op]
			m := MakeMatrix2DPooled[T](s[0], s[1])
			rt.Assert(len(m) == s[0], "a buffer has the requested size")
			for _, r := range m {
				rt.Assert(len(r) == s[1], "a buffer has the requested size")
				for k := range r {
					rt.Assert(r[k] == 0, "a buffer is all zero")
					r[k] = mark
				}
			}
			live = append(live, buf{m, mark})
			mark++
		} else {
			b := live[op-len(sizes)]
			live = append(live[:op-len(sizes):op-len(sizes)], live[op-len(sizes)+1:]...)
			ReturnMatrix2DToPool(b.m)
		}
		for _, b := range live {
			for _, r := range b.m {
				for _, v := range r {
					rt.Assert(v == b.mark, "no two buffers in use share memory")
				}
			}
		}
	}
	rt.Reach("ok")
}

// VH_U02_Ragged: a buffer whose planes differ in size is returned, as for subsampled frames.
func VH_U02_Ragged() {
	a := MakeMatrix3DPooled[int32](3, 2, 2)
	a[0][0][0] = 5
	h, w := rt.Concrete(rt.Int(1, 2)), rt.Concrete(rt.Int(1, 2))
	c := rt.Concrete(rt.Int(0, 2))
	r := MakeMatrix3DPooled[int32](3, 0, 0)
	for i := range r {
		r[i] = MakeMatrix2DPooled[int32](2, 2)
	}
	r[c] = MakeMatrix2DPooled[int32](h, w)
	ReturnMatrix3DToPool(r)
	for _, s := range [][3]int{{3, 2, 2}, {3, h, w}} {
		b := MakeMatrix3DPooled[int32](s[0], s[1], s[2])
		rt.Assert(len(b) == s[0], "a buffer has the requested size")
		for _, p := range b {
			rt.Assert(len(p) == s[1], "a buffer has the requested size")
			for _, row := range p {
				rt.Assert(len(row) == s[2], "a buffer has the requested size")
			}
		}
	}
	rt.Assert(a[0][0][0] == 5, "no two buffers in use share memory")
	rt.Reach("ok")
}

// VH_U02_Empty: buffers without samples.
func VH_U02_Empty() {
	d, h, w := rt.Concrete(rt.Int(0, 1)), rt.Concrete(rt.Int(0, 1)), rt.Concrete(rt.Int(0, 1))
	for i := 0; i < 2; i++ {
		a, b := MakeMatrix3DPooled[float32](d, h, w), MakeMatrix3DPooled[int32](d, h, w)
		c, e := MakeMatrix2DPooled[float32](h, w), MakeMatrix2DPooled[int32](h, w)
		rt.Assert(len(a) == d && len(b) == d && len(c) == h && len(e) == h, "a buffer has the requested size")
		rt.Assert(d == 0 || len(a[0]) == h && len(b[0]) == h, "a buffer has the requested size")
		rt.Assert(h == 0 || len(c[0]) == w && len(e[0]) == w, "a buffer has the requested size")
		ReturnMatrix3DToPool(a)
		ReturnMatrix3DToPool(b)
		ReturnMatrix2DToPool(c)
		ReturnMatrix2DToPool(e)
	}
	rt.Reach("ok")
}
