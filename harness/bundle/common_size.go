package bundle

import "github.com/kpfaulkner/jxl-go/zzverif/rt"

func h01Ratio(r, h uint64) uint64 {
	switch r {
	case 1:
		return h
	case 2:
		return h * 6 / 5
	case 3:
		return h * 4 / 3
	case 4:
		return h * 3 / 2
	case 5:
		return h * 16 / 9
	case 6:
		return h * 5 / 4
	}
	return 2 * h
}

// h01Size is the size header as the format defines it.
func h01Size(r *rt.RefReader) (w, h uint64) {
	div8 := r.Bool()
	dim := func() uint64 {
		if div8 {
			return (r.U(5) + 1) * 8
		}
		return uint64(r.U32(1, 9, 1, 13, 1, 18, 1, 30))
	}
	h = dim()
	ratio := r.U(3)
	if ratio != 0 {
		return h01Ratio(ratio, h), h
	}
	return dim(), h
}

func h01Preview(r *rt.RefReader) (w, h uint64) {
	div8 := r.Bool()
	dim := func() uint64 {
		if div8 {
			return 8 * uint64(r.U32(16, 0, 32, 0, 1, 5, 33, 9))
		}
		return uint64(r.U32(1, 6, 65, 8, 321, 10, 1345, 12))
	}
	h = dim()
	ratio := r.U(3)
	if ratio != 0 {
		return h01Ratio(ratio, h), h
	}
	return dim(), h
}
