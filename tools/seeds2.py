seed("b01-wide-read", "B01", [("jxlio/bitreader.go", "		result |= uint64(br.buffer[0]) << bitsRead\n		bitsRead += 8\n		br.bitsRead += 8\n", "		result |= uint64(uint32(br.buffer[0]) << bitsRead)\n		bitsRead += 8\n		br.bitsRead += 8\n")],
 "jxlio", '''
package jxlio

import (
	"bytes"
	"testing"
)

func TestZZDemo(t *testing.T) {
	r := NewBitStreamReader(bytes.NewReader([]byte{1, 2, 3, 4, 0xf5, 6, 7, 8}))
	if v, err := r.ReadBits(3); err != nil || v != 1 {
		t.Fatal(v, err)
	}
	if v, err := r.ReadBits(37); err != nil || v != 0xf504030201>>3 {
		t.Fatalf("%#x %v", v, err)
	}
}
''', "a single read of more than 32 bits", "bytes are shifted in 32 bits, so reads wider than 32 bits lose their upper part")
seed("e05-final-state", "E05", [("entropy/EntropyStream.go", "return !es.ansState.HasState || es.ansState.State == 0x130000", "return !es.ansState.HasState || es.ansState.State>>16 == 0x13")],
 "entropy", '''
package entropy

import (
	"bytes"
	"testing"

	"github.com/kpfaulkner/jxl-go/jxlio"
)

func TestZZDemo(t *testing.T) {
	var bits []byte
	put := func(v uint64, n int) {
		for i := 0; i < n; i++ {
			bits = append(bits, byte(v>>uint(i)&1))
		}
	}
	put(0, 1) // not simple
	put(0, 1) // no move to front
	put(0, 1) // no LZ77
	put(0, 1) // ANS
	put(0, 2)
	put(5, 3)
	put(1, 2) // one symbol
	put(0, 1)
	put(0x130001, 32)
	put(0, 64)
	d := make([]byte, (len(bits)+7)/8)
	for i, b := range bits {
		d[i/8] |= b << uint(i%8)
	}
	m := make([]int, 3)
	_, err := ReadClusterMap(jxlio.NewBitStreamReader(bytes.NewReader(d)), m, 3)
	if err == nil {
		t.Fatal("wrong final state accepted")
	}
}
''', "an entropy-coded cluster map whose final ANS state is wrong only in its low 16 bits", "corrupt ANS-coded cluster maps are accepted")
