seed("b01-peek-across-chunk", "B01", [("jxlio/bitreader.go", "		result |= uint64(br.buffer[0]) << bitsRead\n		bitsRead += 8\n		br.bitsRead += 8\n", "		result |= uint64(br.buffer[0]) << (bitsRead &^ 1)\n		bitsRead += 8\n		br.bitsRead += 8\n")],
 "jxlio", '''
package jxlio

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	r := NewBitStreamReader(bytes.NewReader([]byte{0xff, 0x00, 0xff}))
	if v, err := r.ReadBits(5); err != nil || v != 31 {
		t.Fatal(v, err)
	}
	// three bits of the first byte, eight of the second, two of the third
	if v, err := r.ReadBits(13); err != nil || v != 7|3<<11 {
		t.Fatalf("%#x %v", v, err)
	}
	r = NewBitStreamReader(bytes.NewReader([]byte{0x00, 0x01, 0x00}))
	r.ReadBits(5)
	if v, err := r.ReadBits(12); err != nil || v != 1<<3 {
		t.Fatalf("%#x %v", v, err)
	}
}
''', "a read that starts an odd number of bits before a byte boundary and spans a whole following byte", "multi-byte bit reads from a misaligned position put whole bytes at the wrong shift")
seed("n01-u64-last-chunk", "N01", [("jxlio/bitreader.go", "		if shift == 60 {\n", "		if shift >= 52 {\n")],
 "jxlio", '''
package jxlio

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	want := uint64(0xfedcba9876543210)
	var bits []byte
	put := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			bits = append(bits, byte(v>>uint(i)&1))
		}
	}
	put(3, 2)
	put(want&0xfff, 12)
	for s := uint(12); s < 60; s += 8 {
		put(1, 1)
		put(want>>s&255, 8)
	}
	put(1, 1)
	put(want>>60, 4)
	d := make([]byte, (len(bits)+7)/8)
	for i, b := range bits {
		d[i/8] |= b << uint(i%8)
	}
	v, err := NewBitStreamReader(bytes.NewReader(d)).ReadU64()
	if err != nil || v != want {
		t.Fatalf("%#x %v", v, err)
	}
}
''', "a U64 whose value needs more than 52 bits", "the U64 reader takes its final 4-bit step one chunk too early")
seed("c01-jxlp-last", "C01", [("core/read_jxl_boxes.go", "				if boxSize < 4 {\n					return nil, errors.New(\"JXLP box too small\")\n				}\n				boxSize -= 4\n", "				if boxSize > 4 {\n					boxSize -= 4\n				}\n")],
 "core", '''
package core

import (
	"bytes"
	"testing"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

func TestZZDemo(t *testing.T) {
	d := append([]byte{}, JPEGXL_CONTAINER_HEADER[:]...)
	// an empty jxlp part, then one with three bytes
	d = append(d, 0, 0, 0, 12, 'j', 'x', 'l', 'p', 0, 0, 0, 0)
	d = append(d, 0, 0, 0, 15, 'j', 'x', 'l', 'p', 0x80, 0, 0, 1, 1, 2, 3)
	h, err := NewBoxReader(jxlio.NewBitStreamReader(bytes.NewReader(d))).ReadBoxHeader()
	if err != nil {
		t.Fatal(err)
	}
	if len(h) != 2 || h[0].BoxSize != 0 || h[1].BoxSize != 3 || h[1].Offset != 36 {
		t.Fatalf("%+v", h)
	}
}
''', "a partial codestream box without payload (size 12)", "an empty jxlp box is taken to have 4 bytes of payload, so the next box is read from the wrong place")
seed("e02-kraft", "E02", [("entropy/VLCTable.go", "", "")] if 0 else [("entropy/HybridIntegerConfig.go", "", "")] if 0 else [],
 "entropy", "", "", "") if 0 else None
seed("e04-window-clip", "E04", [("entropy/EntropyStream.go", "		if distance > int64(es.numDecoded77) {\n			distance = int64(es.numDecoded77)\n		}\n", "		if distance > int64(es.numDecoded77) && distanceMultiplier == 0 {\n			distance = int64(es.numDecoded77)\n		}\n")],
 "entropy", '''
package entropy

import (
	"testing"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

type zzDist struct {
	SymbolDistributionBase
	tokens *[]int32
}

func (d *zzDist) ReadSymbol(reader jxlio.BitReader, state *ANSState) (int32, error) {
	v := (*d.tokens)[0]
	*d.tokens = (*d.tokens)[1:]
	return v, nil
}

func TestZZDemo(t *testing.T) {
	tokens := []int32{7, 5, 224, 60, 9}
	d := &zzDist{tokens: &tokens}
	cfg := NewHybridIntegerConfig(15, 0, 0)
	d.SetConfig(cfg)
	es := &EntropyStream{window: make([]int32, 1<<20), clusterMap: []int{0, 0}, dists: []SymbolDistribution{d}, lzLengthConfig: NewHybridIntegerConfig(8, 0, 0),
		ansState: &ANSState{}, usesLZ77: true, lz77MinSymbol: 224, lz77MinLength: 3}
	want := []int32{7, 5, 7, 5, 7, 9}
	for i, w := range want {
		v, err := es.ReadSymbolWithMultiplier(nil, 0, 100)
		if err != nil || v != w {
			t.Fatal(i, v, w, err)
		}
	}
}
''', "an LZ77 copy in a channel with a distance multiplier whose distance reaches before the first value", "distances are only clipped to the decoded values when no multiplier is given")
seed("e05-mtf-first", "E05", [("entropy/EntropyStream.go", "						for j := index; j > 0; j-- {\n							mtf[j] = mtf[j-1]\n						}\n", "						for j := index; j > 1; j-- {\n							mtf[j] = mtf[j-1]\n						}\n						mtf[1] = i & 0\n						if index > 1 {\n							mtf[1] = mtf[0]\n						}\n")],
 "entropy", '''
package entropy

import (
	"bytes"
	"testing"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

func TestZZDemo(t *testing.T) {
	var bits []byte
	put := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			bits = append(bits, byte(v>>uint(i)&1))
		}
	}
	put(0, 1) // not simple
	put(1, 1) // move to front
	put(0, 1) // no LZ77
	put(1, 1) // prefix codes
	put(15, 4)
	put(1, 1) // alphabet of 3
	put(1, 4)
	put(0, 1)
	put(1, 2) // simple code of 3 symbols
	put(2, 2)
	put(0, 2)
	put(1, 2)
	put(2, 2)
	code := [][2]uint64{{0, 1}, {1, 2}, {3, 2}}
	for _, v := range []int{1, 1, 2, 1, 1} {
		put(code[v][0], int(code[v][1]))
	}
	put(0, 16)
	d := make([]byte, (len(bits)+7)/8)
	for i, b := range bits {
		d[i/8] |= b << uint(i%8)
	}
	m := make([]int, 5)
	n, err := ReadClusterMap(jxlio.NewBitStreamReader(bytes.NewReader(d)), m, 5)
	want := []int{1, 0, 2, 0, 2}
	for i := range m {
		if err != nil || n != 3 || m[i] != want[i] {
			t.Fatal(m, n, err)
		}
	}
}
''', "a move-to-front coded cluster map where index 1 is used when the front of the list is not 0", "moving entry 1 to the front forgets the entry that was in front")
SEEDS = [s for s in SEEDS if s]
