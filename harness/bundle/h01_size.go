package bundle

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: every bit pattern of the size and preview headers (all forms, ratios and field values), levels 5 and 10, also truncated after every byte

func h01CheckSize(n int) {
	data := rt.Bytes(n)
	level := int32(5)
	if rt.Bool() {
		level = 10
	}
	r := &rt.RefReader{D: data}
	w, h := h01Size(r)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	dim, err := readSizeHeader(br, level)
	if r.Bad {
		rt.Assert(err != nil, "a truncated size header is an error")
		rt.Reach("truncated")
		return
	}
	maxDim, maxArea := uint64(1)<<18, uint64(1)<<30
	if level == 10 {
		maxDim, maxArea = 1<<28, 1<<40
	}
	if err != nil {
		rt.Assert(w > maxDim || h > maxDim || uint64(uint32(w))*uint64(uint32(h)) > maxArea, "a size within the level's limits is accepted")
		rt.Reach("too large")
		return
	}
	rt.Assert(uint64(dim.Width) == w && uint64(dim.Height) == h, "width and height are those the format defines")
	rt.Assert(w <= maxDim && h <= maxDim && uint64(dim.Width)*uint64(dim.Height) <= maxArea, "a size beyond the level's limits is rejected")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the size header's bits are consumed")
	rt.Reach("size")
}

func VH_H01_Size()      { h01CheckSize(9) }
func VH_H01_SizeShort() { h01CheckSize(1 + rt.Concrete(rt.Int(0, 3))) }

func h01CheckPreview(n int) {
	data := rt.Bytes(n)
	r := &rt.RefReader{D: data}
	w, h := h01Preview(r)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	dim, err := readPreviewHeader(br)
	if r.Bad {
		rt.Assert(err != nil, "a truncated preview header is an error")
		rt.Reach("truncated")
		return
	}
	if w > 4096 || h > 4096 {
		rt.Assert(err != nil, "a preview larger than 4096 is rejected")
		rt.Reach("too large")
		return
	}
	rt.Assert(err == nil, "a preview size within the limits is accepted")
	rt.Assert(uint64(dim.Width) == w && uint64(dim.Height) == h, "preview width and height are those the format defines")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the preview header's bits are consumed")
	rt.Reach("preview")
}

func VH_H01_Preview()      { h01CheckPreview(5) }
func VH_H01_PreviewShort() { h01CheckPreview(1 + rt.Concrete(rt.Int(0, 1))) }
