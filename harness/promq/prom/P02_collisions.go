package prom

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VP02_collisions", VP02_collisions)
}

// Series are told apart by their labels also when their hashes collide.
func VP02_collisions() {
	m := make(seriesHashmap)
	n := vsym.Bound("operations", 4, 5)
	hash := make([]uint64, 3)
	for i := range hash {
		hash[i] = vsym.Uint64("hash")
	}
	var have [3]*seriesRef
	for i := 0; i < n; i++ {
		k := vsym.Choice("series", 3)
		if vsym.Choice("op", 2) == 0 {
			r := &seriesRef{index: uint64(i), lset: vSeries[k]}
			m.set(hash[k], r)
			have[k] = r
		} else {
			m.del(hash[k], vSeries[k])
			have[k] = nil
		}
		for j := range have {
			vsym.Assert(m.get(hash[j], vSeries[j]) == have[j], "the series last stored under these labels")
		}
	}
	vsym.Reach("mapped")
}
