package prom

import (
	"strconv"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

// vManySeries: series of two metrics that differ in a, share b in groups, and
// each have a label of their own.
func vManySeries(n int) []labels.Labels {
	var ls []labels.Labels
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		ls = append(ls, labels.FromStrings("__name__", []string{"m", "n"}[i%2], "a", "v"+s, "b", strconv.Itoa(i/10), "own"+s, "x"))
	}
	return ls
}

func vLoadMany(n int) (*rangeStorage, []labels.Labels) {
	s := NewRangeStorage()
	ls := vManySeries(n)
	var batch []ParsedSeries
	for i, l := range ls {
		batch = append(batch, ParsedSeries{Labels: l, Timestamp: int64(i), Value: vValue(i)})
	}
	vsym.Assert(s.LoadData(batch) == nil, "load")
	return s, ls
}

func vManyMatchers() []*labels.Matcher {
	t := labels.MatchType(vsym.Choice("type", 4))
	m := vMatcher(t, []string{"a", "b", "own7"}[vsym.Choice("name", 3)], []string{"v7", "1", "x", "", "v1.*"}[vsym.Choice("value", 5)])
	ms := []*labels.Matcher{m}
	if vsym.Choice("metric", 2) == 1 {
		ms = append(ms, vMatcher(labels.MatchEqual, "__name__", "m"))
	}
	return ms
}

func vManySamples(n int) promql.Vector {
	var vec promql.Vector
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		m := labels.FromStrings("__name__", "m", "a", s)
		switch i % 3 {
		case 1:
			m = labels.FromStrings("__name__", "m"+s, "a", "x")
		case 2:
			m = nil
			for j := 0; j < 26; j++ {
				m = append(m, labels.Label{Name: "l" + string([]byte{byte('A' + j)}), Value: "a rather long value of a label " + s})
			}
		}
		vec = append(vec, promql.Sample{Point: promql.Point{T: int64(i) * 1000, V: float64(i) / 4}, Metric: m})
	}
	return vec
}
