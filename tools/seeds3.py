seed("c01-large-size", "C01", [("core/read_jxl_boxes.go", "boxSize = makeTag(boxSizeArray, 0, 8)", "boxSize = makeTag(boxSizeArray, 4, 4)")],
 "core", '''
package core

import (
	"errors"
	"io"
	"testing"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

// zzFile is a sparse file: data at given offsets, zeros elsewhere.
type zzFile struct {
	pos, size int64
	data      map[int64]byte
}

func (f *zzFile) Read(b []byte) (int, error) {
	n := 0
	for n < len(b) && f.pos < f.size {
		b[n] = f.data[f.pos]
		f.pos++
		n++
	}
	if n == 0 && len(b) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *zzFile) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += f.pos
	case io.SeekEnd:
		o += f.size
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = o
	return o, nil
}

func TestZZDemo(t *testing.T) {
	f := &zzFile{data: map[int64]byte{}}
	put := func(at int64, b ...byte) {
		for i, v := range b {
			f.data[at+int64(i)] = v
		}
	}
	put(0, JPEGXL_CONTAINER_HEADER[:]...)
	size := int64(1<<32 + 100)
	put(12, 0, 0, 0, 1, 'j', 'x', 'l', 'c', 0, 0, 0, 1, 0, 0, 0, 100)
	put(12+size, 0, 0, 0, 9, 'j', 'x', 'l', 'l', 10)
	put(12+size+9, 0, 0, 0, 12, 'j', 'x', 'l', 'p', 0x80, 0, 0, 0)
	f.size = 12 + size + 21
	h, err := NewBoxReader(jxlio.NewBitStreamReader(f)).ReadBoxHeader()
	if err != nil || len(h) != 2 || h[0].BoxSize != uint64(size-16) || h[1].Offset != 12+size+21 {
		t.Fatal(h, err)
	}
}
''', "a box with a 64-bit size of 4 GiB or more", "only the low 32 bits of an extended box size count, so the boxes after it are looked up at the wrong place")
seed("e04-window-mask", "E04", [("entropy/EntropyStream.go", "		es.numDecoded77++\n		es.window[es.numDecoded77&0xFFFFF] = hybridInt\n		return hybridInt, nil", "		es.numDecoded77++\n		es.window[es.numDecoded77&0x7FFFF] = hybridInt\n		return hybridInt, nil")],
 "entropy", '''
package entropy

import "testing"

func TestZZDemo(t *testing.T) {
	es := &EntropyStream{usesLZ77: true, window: make([]int32, 1<<20)}
	for i := int32(1); i <= 5; i++ {
		es.window[i] = 100 + i
	}
	es.numDecoded77 = 5
	es.numToCopy77 = 1 << 21
	for i := 0; i < 1<<21; i++ {
		v, err := es.ReadSymbolWithMultiplier(nil, 0, 0)
		if err != nil || v != 101+int32(i%5) {
			t.Fatal(i, v, err)
		}
	}
}
''', "a copied run that goes past 2^19 decoded symbols", "copied symbols are stored in the wrong half of the window once more than 2^19 symbols were decoded")
