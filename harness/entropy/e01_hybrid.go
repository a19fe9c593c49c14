package entropy

import (
	"bytes"

	"github.com/kpfaulkner/jxl-go/jxlio"
	"github.com/kpfaulkner/jxl-go/zzverif/rt"
)

// bound: configurations: every bit pattern of streams of 0..2 bytes for the log alphabet sizes 5..8 and 15 (and 8 for LZ77 lengths); values: every valid configuration with split exponent up to 15, every 32-bit value encoded and decoded again, every token below 2^15 with up to 31 extra bits
// outside: tokens whose value exceeds 32 bits (not produced by an encoder), tokens asking for exactly 32 extra bits

func VH_E01_Config() {
	la := []uint32{5, 6, 7, 8, 15}[rt.Concrete(rt.Int(0, 4))]
	data := rt.Bytes(rt.Concrete(rt.Int(0, 2)))
	r := &rt.RefReader{D: data}
	c, bad := refReadConfig(r, la)
	br := jxlio.NewBitStreamReader(bytes.NewReader(data))
	h, err := NewHybridIntegerConfigWithReader(br, int32(la))
	if r.Bad || bad {
		rt.Assert(err != nil, "a truncated or invalid configuration is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assert(err == nil, "a valid configuration is accepted")
	rt.Assert(h.SplitExponent == int32(c.split) && h.MsbInToken == int32(c.msb) && h.LsbInToken == int32(c.lsb), "configuration fields are those in the stream")
	rt.Assert(br.BitsRead() == uint64(r.P), "exactly the configuration's bits are consumed")
	rt.Reach("ok")
}

func e01Config() (c refConfig, h *HybridIntegerConfig) {
	c.split = uint32(rt.Concrete(rt.Int(0, 15)))
	c.msb = uint32(rt.Concrete(rt.Int(0, 15)))
	rt.Assume(c.msb <= c.split)
	c.lsb = uint32(rt.Concrete(rt.Int(0, 15)))
	rt.Assume(c.msb+c.lsb <= c.split)
	if !rt.Thorough() {
		rt.Assume(c.split <= 5 || c.split == 8 || c.split == 15)
		rt.Assume(c.lsb <= 2 || c.msb <= 1)
	}
	return c, NewHybridIntegerConfig(int32(c.split), int32(c.msb), int32(c.lsb))
}

func e01Encode(c refConfig, v uint32, top uint32) (token uint32, n uint32, bits uint64) {
	if uint64(v) < 1<<c.split {
		return v, 0, 0
	}
	m := v - 1<<top
	token = 1<<c.split + (top-c.split)<<(c.msb+c.lsb) + m>>(top-c.msb)<<c.lsb + m&(1<<c.lsb-1)
	n = top - c.msb - c.lsb
	return token, n, uint64(v>>c.lsb) & (1<<n - 1)
}

// Every value that an encoder writes is read back.
func VH_E01_RoundTrip() {
	c, h := e01Config()
	v := rt.U32()
	top := uint32(rt.Concrete(rt.Int(0, 31)))
	rt.Assume(v>>top == 1 || v == 0 && top == 0)
	token, n, bits := e01Encode(c, v, top)
	e := &extraBits{v: bits}
	es := &EntropyStream{}
	got, err := es.ReadHybridInteger(e, h, int32(token))
	rt.Assert(err == nil, "an encoded value is read back")
	rt.Assert(uint32(got) == v, "an encoded value decodes to itself")
	rt.Assert(e.calls == 0 && uint64(v) < 1<<c.split || e.calls == 1 && e.n == n, "exactly the extra bits are read")
	rt.Reach("ok")
}

// Every token with its extra bits decodes to the value the format defines.
func VH_E01_Decode() {
	c, h := e01Config()
	token := uint32(rt.Int(0, 1<<15-1))
	es := &EntropyStream{}
	e := &extraBits{}
	if token < 1<<c.split {
		got, err := es.ReadHybridInteger(e, h, int32(token))
		rt.Assert(err == nil && uint32(got) == token && e.calls == 0, "a token below the split is the value")
		return
	}
	in := c.msb + c.lsb
	n := c.split - in + (token-1<<c.split)>>in
	if n > 32 {
		_, err := es.ReadHybridInteger(e, h, int32(token))
		rt.Assert(err != nil, "a token with more than 32 extra bits is an error")
		rt.Reach("rejected")
		return
	}
	rt.Assume(n < 32-in)
	n = uint32(rt.Concrete(int(n)))
	e.v = uint64(rt.U32()) & (1<<n - 1)
	got, err := es.ReadHybridInteger(e, h, int32(token))
	rt.Assert(err == nil && e.calls == 1 && e.n == n, "exactly the extra bits are read")
	lead := uint64(1)<<c.msb | uint64(token>>c.lsb)&(1<<c.msb-1)
	want := (lead<<n|e.v)<<c.lsb | uint64(token)&(1<<c.lsb-1)
	rt.Assert(uint64(uint32(got)) == want, "a token and its extra bits give the value the format defines")
	rt.Reach("ok")
}

// Two different codes never give the same value.
func VH_E01_OneToOne() {
	c, h := e01Config()
	if !rt.Thorough() {
		rt.Assume(c.split <= 4)
	}
	es := &EntropyStream{}
	var t [2]uint32
	var bits [2]uint64
	var got [2]int32
	in := c.msb + c.lsb
	for i := range t {
		t[i] = uint32(rt.Int(0, 1<<15-1))
		e := &extraBits{}
		if t[i] >= 1<<c.split {
			n := c.split - in + (t[i]-1<<c.split)>>in
			rt.Assume(n < 8)
			e.v = uint64(rt.U32()) & (1<<n - 1)
		}
		bits[i] = e.v
		var err error
		got[i], err = es.ReadHybridInteger(e, h, int32(t[i]))
		rt.Assert(err == nil, "a valid token is decoded")
	}
	rt.Assert(got[0] != got[1] || t[0] == t[1] && bits[0] == bits[1], "different codes give different values")
	rt.Reach("ok")
}
