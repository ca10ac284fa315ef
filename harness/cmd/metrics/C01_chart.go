package metrics

import (
	"bytes"
	"context"
	"errors"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	"sigs.k8s.io/instrumentation-tools/promq/prom"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC01_series", VC01_series)
	vsym.Register("VC01_ids", VC01_ids)
	vsym.Register("VC01_error", VC01_error)
	vsym.Register("VC01_sources", VC01_sources)
	vsym.Register("VC01_names", VC01_names)
}

var vMetrics = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "x"),
	labels.FromStrings("__name__", "m", "a", "y"),
	labels.FromStrings("a", "x"),
	labels.FromStrings(),
	labels.FromStrings("__name__", "m", "a", "x", "b", "z"),
}

// The series of a query's answer are charted: each one, in order, with its own
// copy of every point, a title of its label values and an ID that is a colour.
func VC01_series() {
	n := vsym.Choice("series", vsym.Bound("series", 2, 3)+1)
	var m promql.Matrix
	var want [][]promql.Point
	var picked []labels.Labels
	for i := 0; i < n; i++ {
		l := vMetrics[vsym.Choice("labels", len(vMetrics))]
		var pts, keep []promql.Point
		for j, k := 0, vsym.Choice("points", vsym.Bound("points", 2, 3)+1); j < k; j++ {
			p := promql.Point{T: vsym.Int64("t"), V: vsym.Float64("v")}
			pts, keep = append(pts, p), append(keep, p)
		}
		m = append(m, promql.Series{Metric: l.Copy(), Points: pts})
		want = append(want, keep)
		picked = append(picked, l)
	}
	set, err := PromResultToPromSeriesSet(&promql.Result{Value: m})
	vsym.Assert(err == nil, "converted")
	vsym.Assert(len(set) == n, "every series")
	// the result is only valid during the query
	for i := range m {
		for j := range m[i].Points {
			m[i].Points[j] = promql.Point{T: -1, V: -1}
		}
		for j := range m[i].Metric {
			m[i].Metric[j] = labels.Label{Name: "other", Value: "other"}
		}
		m[i].Points = nil
	}
	for i, s := range set {
		pts := s.Points()
		vsym.Assert(len(pts) == len(want[i]), "every point")
		for j, p := range pts {
			vsym.Assert(p.X() == want[i][j].T, "the time of a point")
			w := want[i][j].V
			vsym.Assert(vsym.Or(p.Y() == w, vsym.And(w != w, p.Y() != p.Y())), "the value of a point")
		}
		var vals []string
		for _, l := range picked[i] {
			vals = append(vals, l.Value)
		}
		vsym.Assert(s.Title() == strings.Join(vals, ", "), "the values of the labels are the title")
		vsym.Assert(s.Id() > 0 && s.Id() < 256, "the ID is a colour, and not that of nothing")
		for k := 0; k < i; k++ {
			if labels.Equal(picked[i], picked[k]) {
				vsym.Assert(s.Id() == set[k].Id(), "a series keeps its ID")
			}
		}
	}
	vsym.Reach("charted")
}

// Series whose labels hash to the extremes of what a colour can be: the hash is
// 0 or -1 modulo 254, 255, 256, 2^16 and 2^16-2^8.
func VC01_ids() {
	var m promql.Matrix
	for _, v := range []string{"233", "86", "192", "319", "82", "51", "14498", "8910", "66934", "93129"} {
		m = append(m, promql.Series{Metric: labels.FromStrings("__name__", "m", "a", v)})
	}
	set, err := PromResultToPromSeriesSet(&promql.Result{Value: m})
	vsym.Assert(err == nil && len(set) == len(m), "converted")
	for _, s := range set {
		vsym.Assert(s.Id() > 0 && s.Id() < 256, "the ID is a colour, and not that of nothing")
	}
	vsym.Reach("identified")
}

// Failed queries and answers that are no series are errors.
func VC01_error() {
	e := errors.New("query")
	switch vsym.Choice("result", 3) {
	case 0:
		_, err := PromResultToPromSeriesSet(&promql.Result{Err: e, Value: promql.Matrix{}})
		vsym.Assert(errors.Is(err, e), "the error of the query")
	case 1:
		_, err := PromResultToPromSeriesSet(&promql.Result{Value: promql.Scalar{V: vsym.Float64("v")}})
		vsym.Assert(err != nil, "a scalar is no set of series")
	case 2:
		_, err := PromResultToPromSeriesSet(&promql.Result{Value: promql.Vector{}})
		vsym.Assert(err != nil, "a vector is no set of series")
	}
	vsym.Reach("refused")
}

type vSource struct {
	data  []prom.ParsedSeries
	err   error
	calls int
	at    time.Time
}

func (s *vSource) ScrapePrometheusEndpoint(ctx context.Context, now time.Time) ([]prom.ParsedSeries, error) {
	s.calls++
	s.at = now
	return s.data, s.err
}

var errVSource = errors.New("source")

// All sources together give what each gives, in order and as of one time; if
// one fails, the scrape does.
func VC01_sources() {
	n := vsym.Choice("sources", vsym.Bound("sources", 3, 4)+1)
	var srcs []*vSource
	d := DataSources{}
	var want []prom.ParsedSeries
	fails := false
	for i := 0; i < n; i++ {
		s := &vSource{}
		switch k := vsym.Choice("source", 4); k {
		case 3:
			s.err = errVSource
			fails = true
		default:
			for j := 0; j < k; j++ {
				p := prom.ParsedSeries{Labels: vMetrics[(i+j)%len(vMetrics)], Value: vsym.Float64("v"), Timestamp: vsym.Int64("t")}
				vsym.Assume(p.Value == p.Value)
				s.data = append(s.data, p)
			}
		}
		// spare room that must not be written into
		s.data = append(make([]prom.ParsedSeries, 0, 8), s.data...)
		want = append(want, s.data...)
		srcs = append(srcs, s)
		d.sources = append(d.sources, s)
	}
	now := time.Unix(1000, 0)
	for round := 0; round < 2; round++ {
		got, err := d.ScrapePrometheusEndpoint(context.Background(), now)
		if fails {
			vsym.Assert(errors.Is(err, errVSource), "the error of a source is reported")
			continue
		}
		vsym.Assert(err == nil, "scraped")
		vsym.Assert(len(got) == len(want), "everything the sources give")
		for i := range got {
			vsym.Assert(labels.Equal(got[i].Labels, want[i].Labels), "series in order")
			vsym.Assert(vsym.And(got[i].Value == want[i].Value, got[i].Timestamp == want[i].Timestamp), "their values")
		}
		for _, s := range srcs {
			vsym.Assert(s.calls == round+1, "every source is asked once")
			vsym.Assert(s.at.Equal(now), "every source is asked as of the same time")
		}
	}
	vsym.Reach("scraped")
}

// The list of metrics: each name with its labels, once, in order.
func VC01_names() {
	color.NoColor = true
	var out bytes.Buffer
	c := &MetricsCommand{}
	c.Streams.Out = &out
	pool := append([]labels.Labels{
		labels.FromStrings("__name__", "n", "b", "1", "a", "2"),
		labels.FromStrings("__name__", "m", "instance", "host"),
		labels.FromStrings("__name__", "m", "a", "other", "instance", "host"),
	}, vMetrics...)
	var in []prom.ParsedSeries
	want := map[string]bool{}
	for i, n := 0, vsym.Bound("series", 3, 4); i < n; i++ {
		l := pool[vsym.Choice("labels", len(pool))]
		in = append(in, prom.ParsedSeries{Labels: l, Value: math.NaN()})
		if l.Get("__name__") == "" {
			continue
		}
		var names []string
		for _, p := range l {
			if p.Name != "__name__" && p.Name != "instance" {
				names = append(names, p.Name)
			}
		}
		sort.Strings(names)
		want["--"+l.Get("__name__")+" { "+strings.Join(names, ", ")+" }\n"] = true
	}
	vsym.Assert(c.outputMetricNames(in) == nil, "listed")
	var lines []string
	for l := range want {
		lines = append(lines, l)
	}
	sort.Strings(lines)
	vsym.Assert(out.String() == strings.Join(lines, ""), "the list of metrics")
	vsym.Reach("listed")
}
