package metrics

import (
	"context"
	"strconv"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC01_many", VC01_many)
	vsym.Register("VC01_manySources", VC01_manySources)
}

// Many series, of many points, with many labels.
func VC01_many() {
	n := vsym.Bound("many series", 300, 1000)
	points := vsym.Bound("many points", 50, 300)
	v := vsym.Float64("v")
	vsym.Assume(v == v)
	at := vsym.Choice("where", 3) * (n - 1) / 2
	var m promql.Matrix
	for i := 0; i < n; i++ {
		var l labels.Labels
		for j := 0; j <= i%30; j++ {
			l = append(l, labels.Label{Name: "l" + strconv.Itoa(10+j), Value: "v" + strconv.Itoa(i)})
		}
		s := promql.Series{Metric: l}
		for j := 0; j < points; j++ {
			s.Points = append(s.Points, promql.Point{T: int64(i*j) - 50, V: float64(i - j)})
		}
		if i == at {
			s.Points[points-1].V = v
		}
		m = append(m, s)
	}
	set, err := PromResultToPromSeriesSet(&promql.Result{Value: m})
	vsym.Assert(err == nil && len(set) == n, "every series")
	for i, s := range set {
		pts := s.Points()
		vsym.Assert(len(pts) == points, "every point")
		for j, p := range pts {
			vsym.Assert(p.X() == int64(i*j)-50, "the time of a point")
			if i == at && j == points-1 {
				vsym.Assert(p.Y() == v, "the value of a point")
			} else {
				vsym.Assert(p.Y() == float64(i-j), "the value of a point")
			}
		}
		t := strings.TrimSuffix(strings.Repeat("v"+strconv.Itoa(i)+", ", i%30+1), ", ")
		vsym.Assert(s.Title() == t, "the values of the labels are the title")
		vsym.Assert(s.Id() > 0 && s.Id() < 256, "the ID is a colour, and not that of nothing")
	}
	vsym.Reach("charted")
}

// Many sources with many series each.
func VC01_manySources() {
	n := vsym.Bound("many sources", 20, 60)
	v := vsym.Float64("v")
	vsym.Assume(v == v)
	fail := -1
	if vsym.Choice("fails", 2) == 1 {
		fail = vsym.Choice("where", 3) * (n - 1) / 2
	}
	d := DataSources{}
	var want []prom.ParsedSeries
	for i := 0; i < n; i++ {
		s := &vSource{}
		for j := 0; j < i*5; j++ {
			s.data = append(s.data, prom.ParsedSeries{Labels: labels.FromStrings("__name__", "m"+strconv.Itoa(j), "instance", strconv.Itoa(i)), Value: v, Timestamp: int64(1000*i + j)})
		}
		if i == fail {
			s.err = errVSource
		}
		want = append(want, s.data...)
		d.sources = append(d.sources, s)
	}
	for round := 0; round < 2; round++ {
		got, err := d.ScrapePrometheusEndpoint(context.Background(), time.Unix(1000, 0))
		if fail >= 0 {
			vsym.Assert(err != nil, "the error of a source is reported")
			continue
		}
		vsym.Assert(err == nil && len(got) == len(want), "everything the sources give")
		for i := range got {
			vsym.Assert(labels.Equal(got[i].Labels, want[i].Labels) && got[i].Timestamp == want[i].Timestamp, "series in order")
			vsym.Assert(got[i].Value == v, "their values")
		}
	}
	vsym.Reach("scraped")
}
