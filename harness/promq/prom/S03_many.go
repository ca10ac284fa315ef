package prom

import (
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS03_many", VS03_many)
	vsym.Register("VS03_manySeries", VS03_manySeries)
}

// Many samples, of which any number is dropped, and more after that.
func VS03_many() {
	s := NewRangeStorage()
	n := vsym.Bound("many samples", 150, 600)
	load := func(from, to int) {
		var batch []ParsedSeries
		for i := from; i < to; i++ {
			batch = append(batch, ParsedSeries{Labels: vSeries[0], Timestamp: int64(10 * i), Value: vValue(i)})
			if i%3 == 0 {
				batch = append(batch, ParsedSeries{Labels: vSeries[1], Timestamp: int64(10 * i), Value: vValue(i)})
			}
		}
		vsym.Assert(s.LoadData(batch) == nil, "load")
	}
	load(0, n)
	older := vsym.Int64("olderThan")
	s.Clean(older)
	load(n, n+5)
	got := vSelect(s, vAll())
	vsym.Assert(len(got) == 2, "two series")
	for j := 0; j < 2; j++ {
		sr, cnt := vFind(got, vSeries[j])
		vsym.Assert(cnt == 1, "each series once")
		pts := vReadMany(sr, n+10)
		p := len(pts)
		for i := n + 4; i >= 0; i-- {
			if j == 1 && i%3 != 0 {
				continue
			}
			if p > 0 && pts[p-1].v == vValue(i) {
				p--
				vsym.Assert(pts[p].t == int64(10*i), "at its time")
				vsym.Assert(vsym.Or(i >= n, int64(10*i) >= older), "nothing that is older")
			} else {
				vsym.Assert(vsym.And(i < n, int64(10*i) < older), "everything that is not older")
			}
		}
		vsym.Assert(p == 0, "nothing else")
	}
	vsym.Reach("cleaned")
}

// Many series, of which any number is dropped.
func VS03_manySeries() {
	n := vsym.Bound("many series", 130, 500)
	s, ls := vLoadMany(n)
	older := vsym.Int64("olderThan")
	s.Clean(older)
	again := vsym.Choice("again", 2) == 1
	if again {
		vsym.Assert(s.LoadData([]ParsedSeries{{Labels: ls[3], Timestamp: older, Value: 77}}) == nil, "load")
	}
	set := vQuerier(s).Select(false, nil, vAll())
	have := map[string]bool{}
	for set.Next() {
		have[set.At().Labels().Get("a")] = true
		if len(have) > n {
			vsym.Fail("series set does not end")
		}
	}
	back := len(vSelect(s, vMatcher(0, "a", "v3")))
	for i, l := range ls {
		if i == 3 {
			continue
		}
		vsym.Assert(have[l.Get("a")] == (int64(i) >= older), "exactly the series with samples left")
	}
	vsym.Assert(back == vsym.B2I(vsym.Or(again, older <= 3)), "a series that came back")
	vsym.Assert(vsym.B2I(have["v3"]) == back, "found by its labels and among all")
	vsym.Reach("cleaned")
}
