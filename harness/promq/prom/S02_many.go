package prom

import (
	"strconv"

	"github.com/prometheus/prometheus/pkg/labels"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VS02_many", VS02_many)
}

// Many series: exactly those that match, in order if asked to.
func VS02_many() {
	s, ls := vLoadMany(vsym.Bound("many series", 130, 500))
	ms := vManyMatchers()
	sorted := vsym.Choice("sorted", 2) == 1
	set := vQuerier(s).Select(sorted, nil, ms...)
	cnt := map[string]int{}
	var last labels.Labels
	n := 0
	for set.Next() {
		if n > len(ls) {
			vsym.Fail("series set does not end")
		}
		sr := set.At()
		i, err := strconv.Atoi(sr.Labels().Get("a")[1:])
		vsym.Assert(err == nil && labels.Equal(sr.Labels(), ls[i]), "a loaded series")
		pts := vRead(sr)
		vsym.Assert(len(pts) == 1 && pts[0] == vPt{int64(i), vValue(i)}, "its own samples")
		cnt[sr.Labels().Get("a")]++
		if sorted && n > 0 {
			vsym.Assert(labels.Compare(last, sr.Labels()) < 0, "sorted by labels when asked to")
		}
		last = sr.Labels()
		n++
	}
	for _, l := range ls {
		want := true
		for _, m := range ms {
			want = want && m.Matches(l.Get(m.Name))
		}
		vsym.Assert(cnt[l.Get("a")] == vsym.B2I(want), "exactly the matching series, each once")
	}
	vsym.Reach("selected")
}
