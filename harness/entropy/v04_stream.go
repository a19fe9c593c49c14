package entropy

import "github.com/kpfaulkner/jxl-go/jxlio"

type vzDist struct {
	ctx int
	f   func(ctx int) (int32, error)
	bad *bool
}

func (d *vzDist) ReadSymbol(r jxlio.BitReader, s *ANSState) (int32, error) {
	s.SetState(0x130000)
	if *d.bad {
		s.SetState(1)
	}
	return d.f(d.ctx)
}
func (d *vzDist) SetConfig(c *HybridIntegerConfig) {}
func (d *vzDist) GetConfig() *HybridIntegerConfig  { return NewHybridIntegerConfig(30, 0, 0) }

// VZStream stands for a stream with n contexts that delivers the symbols chosen by f.
func VZStream(n int, f func(ctx int) (int32, error), bad *bool) EntropyStreamer {
	s := &EntropyStream{}
	for i := 0; i < n; i++ {
		s.clusterMap = append(s.clusterMap, i)
		s.dists = append(s.dists, &vzDist{i, f, bad})
	}
	return s
}
