package prom

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VS03_clean", VS03_clean)
}

// Dropping what is older than any time, twice with new samples in between:
// only and all samples that are new enough remain, series with none are gone,
// and come back with their new samples alone.
func VS03_clean() {
	s := NewRangeStorage()
	series := vLoaded()
	shared := series[0].Get("lbl") != ""
	n := vsym.Bound("samples before and after", 2, 3)
	var ts []int64
	var of []int
	var keep []bool
	load := func() {
		var batch []ParsedSeries
		for i := 0; i < n; i++ {
			var t int64
			if shared {
				t = 10 * int64(vsym.Choice("t", 2))
			} else {
				t = vsym.Int64("t")
			}
			k := 0
			if len(ts) > 0 {
				k = vsym.Choice("series", 2)
			}
			batch = append(batch, ParsedSeries{Labels: series[k], Timestamp: t, Value: vValue(len(ts))})
			ts, of, keep = append(ts, t), append(of, k), append(keep, true)
		}
		vsym.Assert(s.LoadData(batch) == nil, "load")
	}
	clean := func() {
		var older int64
		if shared {
			older = 10*int64(vsym.Choice("olderThan", 3)) - 5
		} else {
			older = vsym.Int64("olderThan")
		}
		s.Clean(older)
		for i := range keep {
			keep[i] = vsym.And(keep[i], ts[i] >= older)
		}
	}
	check := func() {
		got := vSelect(s, vAll())
		for k := 0; k < 2; k++ {
			mine := make([]bool, len(keep))
			any := false
			for i := range keep {
				mine[i] = of[i] == k && keep[i]
				any = any || mine[i]
			}
			sr, cnt := vFind(got, series[k])
			vsym.Assert(cnt == vsym.B2I(any), "exactly the series with samples left")
			if cnt == 1 {
				vSameSamples(vRead(sr), ts, mine, "series")
			}
		}
	}
	load()
	clean()
	check()
	load()
	check()
	clean()
	check()
	vsym.Reach("cleaned")
}
