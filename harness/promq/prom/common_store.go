package prom

import (
	"context"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/storage"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

type vPt struct {
	t int64
	v float64
}

func vQuerier(s *rangeStorage) storage.Querier {
	q, err := s.Querier(context.Background(), -1<<63, 1<<63-1)
	vsym.Assert(err == nil, "querier")
	return q
}

func vMatcher(t labels.MatchType, n, v string) *labels.Matcher {
	return labels.MustNewMatcher(t, n, v)
}

// vRead iterates a series from the start, as a query does.
func vRead(s storage.Series) []vPt { return vReadMany(s, 50) }

func vReadMany(s storage.Series, most int) []vPt {
	var out []vPt
	it := s.Iterator()
	for it.Next() {
		t, v := it.At()
		out = append(out, vPt{t, v})
		if len(out) > most {
			vsym.Fail("iterator does not end")
		}
	}
	vsym.Assert(it.Err() == nil, "no error at the end")
	return out
}

func vSelect(s *rangeStorage, ms ...*labels.Matcher) []storage.Series {
	set := vQuerier(s).Select(false, nil, ms...)
	var out []storage.Series
	for set.Next() {
		out = append(out, set.At())
		if len(out) > 50 {
			vsym.Fail("series set does not end")
		}
	}
	vsym.Assert(set.Err() == nil, "no error at the end of the set")
	return out
}

func vAll() *labels.Matcher { return vMatcher(labels.MatchRegexp, "__name__", ".*") }

// vSorted: a few series with different label names, some sharing values.
var vSeries = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "x"),
	labels.FromStrings("__name__", "m", "a", "y", "b", "x"),
	labels.FromStrings("__name__", "n", "b", "x"),
	labels.FromStrings("__name__", "m"),
	labels.FromStrings("__name__", "n", "a", "xy", "c", "1"),
}

// vLoaded: series to load, possibly with two whose labels have the same hash.
func vLoaded() []labels.Labels {
	if vsym.Choice("two series share a hash", 2) == 1 {
		return []labels.Labels{
			labels.FromStrings("__name__", "metric", "lbl", "qeYKm3"),
			labels.FromStrings("__name__", "metric", "lbl", "2fUczT"),
			vSeries[0],
		}
	}
	return vSeries[:3]
}

func vFind(l []storage.Series, lset labels.Labels) (storage.Series, int) {
	var f storage.Series
	n := 0
	for _, s := range l {
		if labels.Equal(s.Labels(), lset) {
			f = s
			n++
		}
	}
	return f, n
}

func vValue(i int) float64 { return float64(i) + 0.5 }

// vSameSamples: got holds exactly the samples with a set keep flag, in time
// order. want[i] carries the value vValue(i).
func vSameSamples(got []vPt, want []int64, keep []bool, msg string) {
	n := 0
	for _, k := range keep {
		n += vsym.B2I(k)
	}
	vsym.Assert(len(got) == n, msg+": number of samples")
	for i := 1; i < len(got); i++ {
		vsym.Assert(got[i-1].t <= got[i].t, msg+": samples in time order")
	}
	for i := range want {
		here := 0
		for _, g := range got {
			here += vsym.B2I(vsym.And(g.v == vValue(i), g.t == want[i]))
		}
		vsym.Assert(here == vsym.B2I(keep[i]), msg+": each sample once, with its time")
	}
}
