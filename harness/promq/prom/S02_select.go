package prom

import (
	"github.com/prometheus/prometheus/pkg/labels"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS02_one", VS02_one)
	vsym.Register("VS02_two", VS02_two)
}

var vNames = []string{"__name__", "a", "b", "c", "missing"}

func vAnyMatcher(full bool) *labels.Matcher {
	t := labels.MatchType(vsym.Choice("type", 4))
	names := vNames
	if !full {
		names = vNames[1:3]
	}
	name := names[vsym.Choice("name", len(names))]
	vals := []string{"", "x", "m", "zz"}
	if t == labels.MatchRegexp || t == labels.MatchNotRegexp {
		vals = []string{"", "x|y", "x.*", ".*", ".+"}
	}
	if !full && len(vals) == 5 {
		vals = []string{"x|", ".+"}
	} else if !full {
		vals = []string{"", "x"}
	}
	return vMatcher(t, name, vals[vsym.Choice("value", len(vals))])
}

func vCheckSelect(present []bool, ms ...*labels.Matcher) {
	s := NewRangeStorage()
	for i, p := range present {
		if p {
			vsym.Assert(s.LoadData([]ParsedSeries{{Labels: vSeries[i], Timestamp: int64(i), Value: vValue(i)}}) == nil, "load")
		}
	}
	sorted := vsym.Choice("sorted", 2) == 1
	set := vQuerier(s).Select(sorted, nil, ms...)
	cnt := make([]int, len(vSeries))
	var last labels.Labels
	for n := 0; set.Next(); n++ {
		if n > len(vSeries) {
			vsym.Fail("series set does not end")
		}
		sr := set.At()
		found := false
		for i := range vSeries {
			if labels.Equal(sr.Labels(), vSeries[i]) {
				found = true
				cnt[i]++
				pts := vRead(sr)
				vsym.Assert(len(pts) == 1 && pts[0] == vPt{int64(i), vValue(i)}, "its own samples")
			}
		}
		vsym.Assert(found, "a loaded series")
		if sorted && n > 0 {
			vsym.Assert(labels.Compare(last, sr.Labels()) < 0, "sorted by labels when asked to")
		}
		last = sr.Labels()
	}
	for i, l := range vSeries {
		want := present[i]
		for _, m := range ms {
			want = want && m.Matches(l.Get(m.Name))
		}
		vsym.Assert(cnt[i] == vsym.B2I(want), "exactly the matching series, each once")
	}
	vsym.Reach("selected")
}

// One matcher of any kind over any subset of the series.
func VS02_one() {
	present := make([]bool, len(vSeries))
	for i := range present {
		present[i] = vsym.Choice("present", 2) == 1
	}
	vCheckSelect(present, vAnyMatcher(true))
}

// Two matchers, which must both hold.
func VS02_two() {
	present := make([]bool, len(vSeries))
	for i := range present {
		present[i] = i < 3 || vsym.Choice("present", 2) == 1
	}
	vCheckSelect(present, vMatcher(labels.MatchType(vsym.Choice("nametype", 2)), "__name__", "m"), vAnyMatcher(false), vAnyMatcher(false))
}
