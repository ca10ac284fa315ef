package prom

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VP02_many", VP02_many)
}

// Many series of one hash, some of them deleted, one of them replaced.
func VP02_many() {
	m := make(seriesHashmap)
	hash, other := vsym.Uint64("hash"), vsym.Uint64("hash")
	vsym.Assume(hash != other)
	ls := vManySeries(24)
	have := make([]*seriesRef, len(ls))
	set := func(i int, at uint64) {
		have[i] = &seriesRef{index: at, lset: ls[i]}
		m.set(hash, have[i])
	}
	for i := range ls {
		set(i, uint64(i))
		m.set(other, &seriesRef{index: 100, lset: ls[i]})
	}
	step, from := 1+vsym.Choice("every", 4), vsym.Choice("from", len(ls))
	for i := from; i < len(ls); i += step {
		m.del(hash, ls[i])
		have[i] = nil
	}
	set(vsym.Choice("again", len(ls)), 99)
	for i := range ls {
		vsym.Assert(m.get(hash, ls[i]) == have[i], "the series last stored under these labels")
		o := m.get(other, ls[i])
		vsym.Assert(o != nil && o.index == 100, "those of other hashes stay")
	}
	vsym.Reach("mapped")
}
