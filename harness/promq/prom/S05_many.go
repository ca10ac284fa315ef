package prom

import (
	"github.com/prometheus/prometheus/pkg/labels"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS05_many", VS05_many)
}

// Many label names and values, before and after old series are dropped.
func VS05_many() {
	s, ls := vLoadMany(vsym.Bound("many series", 130, 500))
	older := int64(0)
	if vsym.Choice("clean", 2) == 1 {
		older = []int64{1, 64, 100, 129}[vsym.Choice("olderThan", 4)]
		s.Clean(older)
	}
	var ms []*labels.Matcher
	if vsym.Choice("restricted", 2) == 1 {
		ms = vManyMatchers()
	}
	names, values := map[string]bool{}, map[string]bool{}
	label := []string{"a", "b", "own9"}[vsym.Choice("label", 3)]
	for i, l := range ls {
		ok := int64(i) >= older
		for _, m := range ms {
			ok = ok && m.Matches(l.Get(m.Name))
		}
		if !ok {
			continue
		}
		for _, p := range l {
			names[p.Name] = true
			if p.Name == label {
				values[p.Value] = true
			}
		}
	}
	q := vQuerier(s)
	gotN, _, err := q.LabelNames(ms...)
	vsym.Assert(err == nil, "names")
	gotV, _, err := q.LabelValues(label, ms...)
	vsym.Assert(err == nil, "values")
	for _, l := range [][]string{gotN, gotV} {
		for i := 1; i < len(l); i++ {
			vsym.Assert(l[i-1] < l[i], "sorted")
		}
	}
	vEqualSet(gotN, names, "label names")
	vEqualSet(gotV, values, "label values")
	vsym.Reach("listed")
}
