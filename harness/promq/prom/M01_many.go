package prom

import (
	"context"
	"strconv"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VM01_many", VM01_many)
}

// Many scrapes of many series, of which each query gives the newest values.
func VM01_many() {
	vsym.FreezeClock()
	src := &vSource{}
	d := NewPeriodicData(src, DefaultEngineOptions(time.Hour, 100000))
	d.Times = Range{Instant: true}
	n, rounds := vsym.Bound("many series", 60, 150), vsym.Bound("many scrapes", 12, 40)
	at := vsym.Choice("where", 3) * (n - 1) / 2
	var ls []labels.Labels
	for i := 0; i < n; i++ {
		ls = append(ls, labels.FromStrings("__name__", []string{"m", "n"}[i%2], "a", "v"+strconv.Itoa(i)))
	}
	x := vsym.Float64("value")
	vsym.Assume(x == x)
	queries := []string{`m`, `n`, `{a=~"v.*"}`, `{a="v3"}`}
	round := 0
	src.data = func(now int64) []ParsedSeries {
		var out []ParsedSeries
		for i, l := range ls {
			v := float64(1000*round + i)
			if i == at {
				v = x
			}
			out = append(out, ParsedSeries{Labels: l, Value: v, Timestamp: now - int64(rounds-round)*10})
		}
		return out
	}
	for round = 0; round < rounds; round++ {
		q := round % len(queries)
		vsym.Assert(d.SetQuery(context.Background(), queries[q]) == nil, "query accepted")
		called := 0
		d.Callback = func(r *promql.Result) error {
			called++
			v, err := r.Vector()
			vsym.Assert(err == nil, "query succeeds")
			have := map[string]float64{}
			for _, s := range v {
				have[s.Metric.Get("a")] = s.V
			}
			want := 0
			for i, l := range ls {
				if q < 2 && i%2 != q || q == 3 && i != 3 {
					continue
				}
				want++
				w := float64(1000*round + i)
				if i == at {
					w = x
				}
				got, ok := have[l.Get("a")]
				vsym.Assert(ok && got == w, "the newest value of a series")
			}
			vsym.Assert(len(v) == want, "only the selected series")
			return nil
		}
		vsym.Assert(d.Scrape(context.Background()) == nil, "scraped")
		vsym.Assert(called == 1, "called back once")
	}
	names := d.GetIndex().GetStoredValuesForMetricAndDimension("m", "a")
	vsym.Assert(len(names) == (n+1)/2 && names.Has("v"+strconv.Itoa((n-1)/2*2)), "all are indexed")
	vsym.Reach("scraped")
}
