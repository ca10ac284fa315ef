package prom

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VS01_order", VS01_order)
	vsym.Register("VS01_series", VS01_series)
}

// Samples of one series with any timestamps, in one or two batches.
func VS01_order() {
	s := NewRangeStorage()
	n := vsym.Bound("samples", 4, 5)
	cut := vsym.Choice("cut", n+1)
	var ts []int64
	var batch []ParsedSeries
	for i := 0; i < n; i++ {
		if i == cut {
			vsym.Assert(s.LoadData(batch) == nil, "load")
			batch = nil
		}
		t := vsym.Int64("t")
		ts = append(ts, t)
		batch = append(batch, ParsedSeries{Labels: vSeries[0], Timestamp: t, Value: vValue(i)})
	}
	vsym.Assert(s.LoadData(batch) == nil, "load")
	keep := make([]bool, n)
	for i := range keep {
		keep[i] = true
	}
	got := vSelect(s, vAll())
	vsym.Assert(len(got) == 1, "one series")
	vSameSamples(vRead(got[0]), ts, keep, "series")
	vsym.Reach("read")
}

// Samples of several series, interleaved in any way.
func VS01_series() {
	s := NewRangeStorage()
	series := vLoaded()
	n := vsym.Bound("interleaved samples", 4, 5)
	var ts []int64
	var of []int
	var batch []ParsedSeries
	for i := 0; i < n; i++ {
		t := vsym.Int64Range("t", 0, 1000)
		k := vsym.Choice("series", 3)
		ts, of = append(ts, t), append(of, k)
		batch = append(batch, ParsedSeries{Labels: series[k], Timestamp: t, Value: vValue(i)})
		if i == 1 {
			vsym.Assert(s.LoadData(batch) == nil, "load")
			batch = nil
		}
	}
	vsym.Assert(s.LoadData(batch) == nil, "load")
	got := vSelect(s, vAll())
	want := 0
	for k := 0; k < 3; k++ {
		keep := make([]bool, n)
		any := false
		for i := range keep {
			keep[i] = of[i] == k
			any = any || keep[i]
		}
		sr, cnt := vFind(got, series[k])
		if !any {
			vsym.Assert(cnt == 0, "no series without samples")
			continue
		}
		want++
		vsym.Assert(cnt == 1, "each series once")
		vSameSamples(vRead(sr), ts, keep, "series")
	}
	vsym.Assert(len(got) == want, "no other series")
	vsym.Reach("read")
}
