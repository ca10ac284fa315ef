package prom

import (
	"github.com/prometheus/prometheus/tsdb/chunkenc"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS04_cursor", VS04_cursor)
	vsym.Register("VS04_two", VS04_two)
}

func vSeriesOf(n int) (*rangeStorage, []int64) {
	s := NewRangeStorage()
	var ts []int64
	for i := 0; i < n; i++ {
		t := vsym.Int64("t")
		if i > 0 {
			vsym.Assume(t > ts[i-1])
		}
		ts = append(ts, t)
		vsym.Assert(s.LoadData([]ParsedSeries{{Labels: vSeries[0], Timestamp: t, Value: vValue(i)}}) == nil, "load")
	}
	return s, ts
}

// vCursor is the contract of a sample iterator.
type vCursor struct {
	ts  []int64
	pos int // -1 before the first
}

func (c *vCursor) next() bool {
	if c.pos < len(c.ts) {
		c.pos++
	}
	return c.pos < len(c.ts)
}

func (c *vCursor) seek(t int64) bool {
	if c.pos < 0 {
		c.pos = 0
	}
	for c.pos < len(c.ts) && c.ts[c.pos] < t {
		c.pos++
	}
	return c.pos < len(c.ts)
}

func vStepIt(it chunkenc.Iterator, c *vCursor) {
	var got, want bool
	if vsym.Choice("op", 2) == 0 {
		got, want = it.Next(), c.next()
	} else {
		t := vsym.Int64("seek")
		got, want = it.Seek(t), c.seek(t)
	}
	vsym.Assert(got == want, "reports whether there is such a sample")
	if got && want {
		t, v := it.At()
		vsym.Assert(t == c.ts[c.pos], "at the first such sample")
		vsym.Assert(v == vValue(c.pos), "with its value")
	}
}

// Any sequence of next and seek.
func VS04_cursor() {
	s, ts := vSeriesOf(1 + vsym.Choice("samples", vsym.Bound("samples", 3, 4)))
	it := vSelect(s, vAll())[0].Iterator()
	c := &vCursor{ts, -1}
	ops := vsym.Bound("operations", 4, 6)
	for i := 0; i < ops; i++ {
		vStepIt(it, c)
	}
	vsym.Reach("iterated")
}

// Iterators of one series, and of the series found again, are independent.
func VS04_two() {
	s, ts := vSeriesOf(2)
	sr := vSelect(s, vAll())[0]
	its := []chunkenc.Iterator{sr.Iterator(), sr.Iterator(), vSelect(s, vAll())[0].Iterator()}
	cs := []*vCursor{{ts, -1}, {ts, -1}, {ts, -1}}
	for i := 0; i < vsym.Bound("operations over three iterators", 4, 5); i++ {
		k := vsym.Choice("which", 3)
		vStepIt(its[k], cs[k])
	}
	vsym.Reach("iterated")
}
