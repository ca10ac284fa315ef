package prom

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VS04_many", VS04_many)
}

// Seeking to any time in a long series, going on from there, and seeking again.
func VS04_many() {
	s := NewRangeStorage()
	n := vsym.Bound("many samples", 70, 300)
	var ts []int64
	var batch []ParsedSeries
	for i := 0; i < n; i++ {
		ts = append(ts, int64(10*i))
		batch = append(batch, ParsedSeries{Labels: vSeries[0], Timestamp: int64(10 * i), Value: vValue(i)})
	}
	vsym.Assert(s.LoadData(batch) == nil, "load")
	it := vSelect(s, vAll())[0].Iterator()
	c := &vCursor{ts, -1}
	for i := vsym.Choice("first", 3) * 20; i > 0; i-- {
		vsym.Assert(it.Next() && c.next(), "has samples")
	}
	t := vsym.Int64("seek")
	vsym.Assert(it.Seek(t) == c.seek(t), "reports whether there is such a sample")
	for i := 0; i < 3 && c.pos < n; i++ {
		at, v := it.At()
		vsym.Assert(vsym.And(at == ts[c.pos], v == vValue(c.pos)), "at the first such sample")
		vsym.Assert(it.Next() == c.next(), "reports whether there is another sample")
	}
	t += []int64{-50, 35, 700}[vsym.Choice("again", 3)]
	vsym.Assert(it.Seek(t) == c.seek(t), "reports whether there is such a sample")
	if c.pos < n {
		at, v := it.At()
		vsym.Assert(vsym.And(at == ts[c.pos], v == vValue(c.pos)), "at the first such sample")
	}
	vsym.Reach("iterated")
}
