package prom

import (
	"strconv"

	"github.com/prometheus/prometheus/pkg/labels"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VX01_index", VX01_index)
	vsym.Register("VX01_many", VX01_many)
	vsym.Register("VX01_snapshot", VX01_snapshot)
	vsym.Register("VX01_concurrent", VX01_concurrent)
}

var vIndexed = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "x"),
	labels.FromStrings("__name__", "m", "a", "y", "b", "x"),
	labels.FromStrings("__name__", "n", "a", "z"),
	labels.FromStrings("__name__", "n"),
	labels.FromStrings("a", "nameless"),
	labels.FromStrings("__name__", "m", "b", "x"),
	labels.FromStrings("__name__", "a", "m", "n"),
	labels.FromStrings("__name__", "n", "instance", "i", "job", "j", "le", "0.5", "quantile", "0.1"),
	labels.FromStrings("__name__", "n", "instance", "h", "job", "j", "le", "0.5", "quantile", "0.1"),
	labels.FromStrings("__name__", "n", "instance", "i", "job", "k", "le", "+Inf", "quantile", "0.1"),
	labels.FromStrings("__name__", "n", "instance", "i", "job", "j", "le", "0.5", "quantile", "0.9"),
	labels.FromStrings("__name__", "m", "instance", "g", "job", "l", "le", "1", "quantile", "0.2"),
	// two whose labels have the same hash
	labels.FromStrings("__name__", "metric", "lbl", "qeYKm3"),
	labels.FromStrings("__name__", "metric", "lbl", "2fUczT"),
}

func vSetIs(got sets.String, want map[string]bool, msg string) {
	vsym.Assert(len(got) == len(want), msg)
	for w := range want {
		vsym.Assert(got.Has(w), msg)
	}
}

// vWantIndex: the metrics, labels and values of the series, by definition.
func vWantIndex(seen []labels.Labels) (names map[string]bool, dims map[string]map[string]bool, vals map[[2]string]map[string]bool) {
	names, dims, vals = map[string]bool{}, map[string]map[string]bool{}, map[[2]string]map[string]bool{}
	for _, l := range seen {
		n := l.Get("__name__")
		if n == "" {
			continue
		}
		names[n] = true
		for _, p := range l {
			if p.Name == "__name__" {
				continue
			}
			if dims[n] == nil {
				dims[n] = map[string]bool{}
			}
			dims[n][p.Name] = true
			k := [2]string{n, p.Name}
			if vals[k] == nil {
				vals[k] = map[string]bool{}
			}
			vals[k][p.Value] = true
		}
	}
	return
}

func vCheckIndex(ix Indexer, seen []labels.Labels) {
	names, dims, vals := vWantIndex(seen)
	vSetIs(ix.GetMetricNames(), names, "metric names")
	for _, n := range []string{"m", "n", "a", "metric", "nope", ""} {
		vSetIs(ix.GetStoredDimensionsForMetric(n), dims[n], "labels of a metric")
		for _, d := range []string{"a", "b", "m", "instance", "job", "le", "quantile", "lbl", "__name__", "nope"} {
			vSetIs(ix.GetStoredValuesForMetricAndDimension(n, d), vals[[2]string{n, d}], "values of a label")
		}
	}
}

// Any history of series, repeated or not: exactly their names, labels and
// values, after every step.
func VX01_index() {
	vsym.MapOrder(1)
	ix := NewIndex()
	var seen []labels.Labels
	n := vsym.Bound("series", 3, 4)
	for i := 0; i < n; i++ {
		l := vIndexed[vsym.Choice("series", len(vIndexed))]
		ix.UpdateMetric(ParsedSeries{Labels: l, Value: vsym.Float64("value"), Timestamp: vsym.Int64("time")})
		seen = append(seen, l)
		if i == n-1 || vsym.Tier() == "thorough" {
			vCheckIndex(ix, seen)
		}
	}
	vsym.Reach("indexed")
}

// Many series of few metrics: none is left out for their number.
func VX01_many() {
	ix := NewIndex()
	n := vsym.Bound("many series", 300, 1200)
	last := labels.FromStrings("__name__", "m", "a", []string{"v0", "new"}[vsym.Choice("last value", 2)], "z", "z")
	var seen []labels.Labels
	for i := 0; i < n; i++ {
		v := strconv.Itoa(i)
		seen = append(seen, labels.FromStrings("__name__", "m", "a", "v"+v), labels.FromStrings("__name__", "m", "l"+v, "x"), labels.FromStrings("__name__", "n"+v))
	}
	seen = append(seen, last)
	for _, l := range seen {
		ix.UpdateMetric(ParsedSeries{Labels: l})
	}
	vCheckIndex(ix, seen)
	vsym.Reach("indexed")
}

// What was handed out is the caller's: it does not change with the index, and
// changing it does not change the index.
func VX01_snapshot() {
	ix := NewIndex()
	seen := []labels.Labels{vIndexed[0], vIndexed[2]}
	for _, l := range seen {
		ix.UpdateMetric(ParsedSeries{Labels: l})
	}
	names, dims, vals := ix.GetMetricNames(), ix.GetStoredDimensionsForMetric("m"), ix.GetStoredValuesForMetricAndDimension("m", "a")
	switch vsym.Choice("change", 4) {
	case 0:
		names.Insert("other")
		names.Delete("m")
	case 1:
		dims.Insert("other")
		dims.Delete("a")
	case 2:
		vals.Insert("other")
		vals.Delete("x")
	case 3:
		more := vIndexed[vsym.Choice("series", len(vIndexed))]
		ix.UpdateMetric(ParsedSeries{Labels: more})
		seen = append(seen, more)
		wn, wd, wv := vWantIndex(seen[:2])
		vSetIs(names, wn, "names handed out before")
		vSetIs(dims, wd["m"], "labels handed out before")
		vSetIs(vals, wv[[2]string{"m", "a"}], "values handed out before")
	}
	vCheckIndex(ix, seen)
	vsym.Reach("independent")
}

// Completing while new data is scraped: no race, and what is listed was there
// or has just been added.
func VX01_concurrent() {
	vsym.Preempt(vsym.Bound("preemptions", 2, 3))
	ix := NewIndex()
	ix.UpdateMetric(ParsedSeries{Labels: vIndexed[0]})
	done := make(chan struct{})
	go func() {
		ix.UpdateMetric(ParsedSeries{Labels: vIndexed[1]})
		close(done)
	}()
	var got sets.String
	switch vsym.Choice("asked", 3) {
	case 0:
		got = ix.GetMetricNames()
		vsym.Assert(len(got.List()) == 1 && got.Has("m"), "names")
	case 1:
		got = ix.GetStoredDimensionsForMetric("m")
		vsym.Assert(got.Has("a") && len(got.List()) <= 2, "labels")
	case 2:
		got = ix.GetStoredValuesForMetricAndDimension("m", "a")
		vsym.Assert(got.Has("x") && len(got.List()) <= 2, "values")
	}
	<-done
	vCheckIndex(ix, vIndexed[:2])
	vsym.Reach("both done")
}
