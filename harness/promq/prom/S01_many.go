package prom

import (
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS01_many", VS01_many)
}

// Many samples of two series in several batches, then one of any time.
func VS01_many() {
	s := NewRangeStorage()
	n := vsym.Bound("many samples", 150, 600)
	size := []int{1, 64, n}[vsym.Choice("batch", 3)]
	var batch []ParsedSeries
	for i := 0; i < n; i++ {
		batch = append(batch, ParsedSeries{Labels: vSeries[0], Timestamp: int64(10 * i), Value: vValue(i)}, ParsedSeries{Labels: vSeries[1], Timestamp: int64(10 * i), Value: -vValue(i)})
		if len(batch) >= size {
			vsym.Assert(s.LoadData(batch) == nil, "load")
			batch = nil
		}
	}
	slot := vsym.Choice("after", n+1) // after how many of the others
	t := int64(10*slot-10) + vsym.Int64Range("t", 0, 9)
	if slot == n {
		t = vsym.Int64("t")
		vsym.Assume(t >= int64(10*n-10))
	} else if slot == 0 {
		t = vsym.Int64("t")
		vsym.Assume(t < 0)
	}
	k := vsym.Choice("series", 2)
	batch = append(batch, ParsedSeries{Labels: vSeries[k], Timestamp: t, Value: 0})
	vsym.Assert(s.LoadData(batch) == nil, "load")
	got := vSelect(s, vAll())
	vsym.Assert(len(got) == 2, "two series")
	for j := 0; j < 2; j++ {
		sr, cnt := vFind(got, vSeries[j])
		vsym.Assert(cnt == 1, "each series once")
		pts := vReadMany(sr, n+2)
		vsym.Assert(len(pts) == n+vsym.B2I(j == k), "number of samples")
		i := 0
		for p, pt := range pts {
			if p > 0 {
				vsym.Assert(pts[p-1].t <= pt.t, "samples in time order")
			}
			if pt.v == 0 {
				vsym.Assert(j == k && p == i, "the added sample once, in its series")
				vsym.Assert(pt.t == t, "the added sample at its time")
				continue
			}
			want := vValue(i)
			if j == 1 {
				want = -want
			}
			vsym.Assert(vsym.And(pt.v == want, pt.t == int64(10*i)), "each sample once, with its time")
			i++
		}
		vsym.Assert(i == n, "every sample")
	}
	vsym.Reach("read")
}
