// Package rt is the harness interface. Under the symbolic engine every function
// here is intercepted; natively the values come from a replay file, so that any
// counterexample is re-run against the real compiled code.
package rt

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"io"
	"math"
	"os"
	"strings"
)

// Vals are the recorded inputs, in order of creation.
var Vals []uint64
var pos int
var known = map[string]bool{}
var Tier int

type stop struct{ why string }

func SetKnown(ids string) {
	for _, s := range strings.Split(ids, ",") {
		if s != "" {
			known[s] = true
		}
	}
}

func next() uint64 {
	if pos >= len(Vals) {
		pos++
		return 0
	}
	v := Vals[pos]
	pos++
	return v
}

// Run executes a harness natively and prints the outcome.
func Run(f func()) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				fmt.Println("STOP " + s.why)
				os.Stdout.Sync()
				return
			}
			fmt.Printf("PANIC %v\n", r)
			os.Stdout.Sync()
			os.Exit(3)
		}
	}()
	f()
	fmt.Println("DONE")
}

func U8() uint8   { return uint8(next()) }
func U16() uint16 { return uint16(next()) }
func U32() uint32 { return uint32(next()) }
func U64() uint64 { return next() }
func I32() int32  { return int32(next()) }
func I64() int64  { return int64(next()) }
func Bool() bool  { return next() != 0 }

// Int is any value in [lo,hi].
func Int(lo, hi int) int {
	v := next()
	return lo + int(v)
}

// F32 is any 32-bit float given by its bit pattern (including NaN and infinities).
func F32() float32 { return math.Float32frombits(uint32(next())) }

// Lin32 is any real in [lo,hi] treated by exact linear arithmetic with tracked
// rounding error; Lin64 likewise.
func Lin32(lo, hi float64) float32 { return float32(math.Float64frombits(next())) }
func Lin64(lo, hi float64) float64 { return math.Float64frombits(next()) }

// Bytes returns n arbitrary bytes.
func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = U8()
	}
	return b
}

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(stop{"assume"})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		fmt.Println("ASSERT-FAIL " + label)
	}
}

// Close states |got-want| <= tol (NaN fails).
func Close(got, want, tol float64, label string) {
	if !(math.Abs(got-want) <= tol) {
		fmt.Printf("ASSERT-FAIL %s\n", label)
		fmt.Fprintf(os.Stderr, "got %g want %g\n", got, want)
	}
}

// Known tells whether a recorded finding id is listed as open.
func Known(id string) bool { return known[id] }

// KnownHit records that a listed finding was observed on this input.
func KnownHit(id string) { fmt.Println("KNOWN " + id) }

// Reach marks a point that must be reachable (vacuity guard).
func Reach(label string) { fmt.Println("REACH " + label) }

// Observe records a value compared between engine and native runs.
func Observe(label string, v uint64) { fmt.Printf("OBS %s %d\n", label, v) }

// Merge switches state merging at branches on or off.
func Merge(on bool) {}

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(stop); ok {
				panic(s)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Symbolic is true under the engine.
func Symbolic() bool { return false }

// Thorough is true for the thorough tier.
func Thorough() bool { return Tier > 0 }

// Set sets an engine option (schedule exploration, processor count...).
func Set(name string, v int) {}

// Concrete forks over the possible values of v.
func Concrete(v int) int { return v }

// Unwrap decompresses a zlib stream (the engine uses its stored-block model).
func Unwrap(b []byte) ([]byte, bool) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, false
	}
	return out, true
}

// Same tells whether two float32 values have the same bit pattern or are both NaN.
func Same(a, b float32) bool {
	return math.Float32bits(a) == math.Float32bits(b) || (a != a && b != b)
}
