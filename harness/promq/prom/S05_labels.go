package prom

import (
	"sort"

	"github.com/prometheus/prometheus/pkg/labels"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS05_labels", VS05_labels)
}

// Label names and values of any subset of the series, unrestricted and
// restricted by matchers, before and after old series are dropped.
func VS05_labels() {
	vsym.MapOrder(1)
	s := NewRangeStorage()
	present := make([]bool, len(vSeries))
	for i := range present {
		present[i] = vsym.Choice("present", 2) == 1
		if present[i] {
			vsym.Assert(s.LoadData([]ParsedSeries{{Labels: vSeries[i], Timestamp: int64(i), Value: 1}}) == nil, "load")
		}
	}
	if vsym.Choice("clean", 2) == 1 {
		older := vsym.Int64Range("olderThan", 0, 5)
		s.Clean(older)
		for i := range present {
			present[i] = present[i] && int64(i) >= older
		}
	}
	var ms []*labels.Matcher
	switch vsym.Choice("matcher", 5) {
	case 1:
		ms = append(ms, vMatcher(labels.MatchEqual, "a", "x"))
	case 2:
		ms = append(ms, vMatcher(labels.MatchNotEqual, "a", "x"))
	case 3:
		ms = append(ms, vMatcher(labels.MatchEqual, "__name__", "n"), vMatcher(labels.MatchRegexp, "b", ".+"))
	case 4:
		ms = append(ms, vMatcher(labels.MatchEqual, "a", ""))
	}
	names := map[string]bool{}
	values := map[string]bool{}
	label := []string{"a", "__name__", "missing", ""}[vsym.Choice("label", 4)]
	for i, l := range vSeries {
		ok := present[i]
		for _, m := range ms {
			ok = ok && m.Matches(l.Get(m.Name))
		}
		if !ok {
			continue
		}
		for _, p := range l {
			names[p.Name] = true
			if p.Name == label {
				values[p.Value] = true
			}
		}
	}
	q := vQuerier(s)
	gotN, _, err := q.LabelNames(ms...)
	vsym.Assert(err == nil, "names")
	vsym.Assert(sort.StringsAreSorted(gotN), "names sorted")
	vEqualSet(gotN, names, "label names")
	gotV, _, err := q.LabelValues(label, ms...)
	vsym.Assert(err == nil, "values")
	vEqualSet(gotV, values, "label values")
	vsym.Reach("listed")
}

func vEqualSet(got []string, want map[string]bool, msg string) {
	vsym.Assert(len(got) == len(want), "number of "+msg)
	for _, g := range got {
		vsym.Assert(want[g], msg+" of the series")
		delete(want, g)
	}
}
