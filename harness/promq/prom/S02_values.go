package prom

import (
	"github.com/prometheus/prometheus/pkg/labels"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS02_values", VS02_values)
}

// Label values of any one or two bytes.
func VS02_values() {
	s := NewRangeStorage()
	n := 2
	var ls []labels.Labels
	var vals []string
	for i := 0; i < n; i++ {
		v := vsym.String("value", 1+vsym.Choice("length", 2))
		vals = append(vals, v)
		name := []string{"m", "n"}[i]
		l := labels.Labels{{Name: "__name__", Value: name}, {Name: "a", Value: v}}
		ls = append(ls, l)
		// The storage key of a series is a hash of its labels; which one does
		// not matter here.
		id := s.nextPt
		s.nextPt++
		s.data[id] = &seriesData{series: l, data: []datapoint{{timestamp: 1, value: vValue(i)}}}
		s.postings.Add(id, l)
	}
	probe := vsym.String("probe", 1+vsym.Choice("probelength", 2))
	t := labels.MatchEqual
	if vsym.Choice("not", 2) == 1 {
		t = labels.MatchNotEqual
	}
	got := vSelect(s, vMatcher(t, "a", probe))
	for i := range ls {
		_, cnt := vFind(got, ls[i])
		want := vals[i] == probe
		if t == labels.MatchNotEqual {
			want = !want
		}
		vsym.Assert(cnt == vsym.B2I(want), "exactly the matching series, each once")
	}
	vsym.Reach("selected")
}
