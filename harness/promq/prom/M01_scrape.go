package prom

import (
	"context"
	"errors"
	"math"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VM01_scrape", VM01_scrape)
	vsym.Register("VM01_range", VM01_range)
	vsym.Register("VM01_query", VM01_query)
	vsym.Register("VM01_unfit", VM01_unfit)
	vsym.Register("VM01_concurrent", VM01_concurrent)
}

var errVSource, errVCallback = errors.New("source"), errors.New("callback")

type vSource struct {
	data  func(nowMs int64) []ParsedSeries
	err   error
	calls int
}

func (s *vSource) ScrapePrometheusEndpoint(ctx context.Context, now time.Time) ([]ParsedSeries, error) {
	s.calls++
	if s.err != nil {
		// what came with the error must not be used
		return []ParsedSeries{{Labels: vScraped[0], Value: 99, Timestamp: now.Unix() * 1000}}, s.err
	}
	if s.data == nil {
		return nil, nil
	}
	return s.data(now.Unix() * 1000), nil
}

var vScraped = []labels.Labels{
	labels.FromStrings("__name__", "m", "a", "x"),
	labels.FromStrings("__name__", "m", "a", "y"),
	labels.FromStrings("__name__", "n", "a", "x"),
}

type vSample struct {
	l labels.Labels
	t int64
	v float64
}

// vLatest: the newest sample of a series, by definition (the last one loaded
// of those of one time).
func vLatest(all []vSample, l labels.Labels) (float64, bool) {
	best := -1
	for i, s := range all {
		if labels.Equal(s.l, l) && (best < 0 || s.t >= all[best].t) {
			best = i
		}
	}
	if best < 0 {
		return 0, false
	}
	return all[best].v, true
}

// Any history of scrapes, of which some fail at the source or in the callback:
// after each that does not fail at the source the callback sees, once, the
// newest values of exactly the series that the query selects.
func VM01_scrape() {
	src := &vSource{}
	d := NewPeriodicData(src, DefaultEngineOptions(time.Hour, 1000))
	d.Times = Range{Instant: true}
	vsym.Assert(d.SetQuery(context.Background(), `m`) == nil, "query accepted")
	var all []vSample
	var got promql.Vector
	var cbErr error
	called := 0
	d.Callback = func(r *promql.Result) error {
		called++
		vsym.Assert(r.Err == nil, "query succeeds")
		v, err := r.Vector()
		vsym.Assert(err == nil, "an instant query gives a vector")
		got = append(promql.Vector(nil), v...)
		return cbErr
	}
	n := vsym.Bound("scrapes", 3, 4)
	for i := 0; i < n; i++ {
		src.err, src.data, cbErr, called, got = nil, nil, nil, 0, nil
		known := len(all)
		switch vsym.Choice("scrape", 4) {
		case 0:
			src.err = errVSource
		case 1:
			cbErr = errVCallback
		case 2:
			l, back := vScraped[vsym.Choice("series", len(vScraped))], int64(vsym.Choice("back", 2))*60000
			v := vsym.Float64("value")
			vsym.Assume(v == v)
			src.data = func(now int64) []ParsedSeries {
				all = append(all, vSample{l, now - back, v})
				return []ParsedSeries{{Labels: l, Value: v, Timestamp: now - back}}
			}
		case 3:
			v, w := vsym.Float64("value"), vsym.Float64("value")
			vsym.Assume(vsym.And(v == v, w == w))
			src.data = func(now int64) []ParsedSeries {
				all = append(all, vSample{vScraped[0], now, v}, vSample{vScraped[1], now, w})
				return []ParsedSeries{{Labels: vScraped[0], Value: v, Timestamp: now}, {Labels: vScraped[1], Value: w, Timestamp: now}}
			}
		}
		src.calls = 0
		err := d.Scrape(context.Background())
		vsym.Assert(src.calls == 1, "the source is asked once")
		if src.err != nil {
			vsym.Assert(errors.Is(err, errVSource), "the source's error is reported")
			vsym.Assert(vsym.And(called == 0, len(all) == known), "nothing happens without data")
			vsym.Assert(known > 0 || len(d.GetIndex().GetMetricNames()) == 0, "nothing is indexed without data")
			continue
		}
		vsym.Assert(called == 1, "called back once")
		if cbErr != nil {
			vsym.Assert(errors.Is(err, errVCallback), "the callback's error is reported")
		} else {
			vsym.Assert(err == nil, "no error")
		}
		want := 0
		for _, l := range vScraped[:2] {
			v, ok := vLatest(all, l)
			if !ok {
				continue
			}
			want++
			found := 0
			for _, s := range got {
				if labels.Equal(s.Metric, l) {
					found++
					vsym.Assert(s.V == v, "the newest value of a series")
				}
			}
			vsym.Assert(found == 1, "each selected series once")
		}
		vsym.Assert(len(got) == want, "only the selected series")
		for _, s := range all {
			ix := d.GetIndex()
			vsym.Assert(ix.GetMetricNames().Has(s.l.Get("__name__")), "scraped metrics are indexed")
			vsym.Assert(ix.GetStoredValuesForMetricAndDimension(s.l.Get("__name__"), "a").Has(s.l.Get("a")), "scraped labels are indexed")
		}
		vsym.Assert(!d.GetIndex().GetMetricNames().Has("a"), "only metrics are indexed")
	}
	vsym.Reach("scraped")
}

// A range query answers with one point per interval over the window, each
// the newest sample of its time.
func VM01_range() {
	src := &vSource{}
	d := NewPeriodicData(src, DefaultEngineOptions(time.Hour, 100000))
	window := time.Duration(1+vsym.Choice("window", vsym.Bound("window", 4, 6))) * time.Minute
	step := time.Duration(1+vsym.Choice("interval", 3)) * 20 * time.Second
	d.Times = Range{Window: window, Interval: step}
	vsym.Assert(d.SetQuery(context.Background(), `m{a="x"}`) == nil, "query accepted")
	back := []int64{0, 30000, 90000, 200000}[vsym.Choice("back", 4)]
	v, w := vsym.Float64("value"), vsym.Float64("value")
	vsym.Assume(vsym.And(v == v, w == w))
	var t1, t2 int64
	src.data = func(now int64) []ParsedSeries {
		t1, t2 = now-back-10000, now-back
		return []ParsedSeries{{Labels: vScraped[0], Value: v, Timestamp: t1}, {Labels: vScraped[0], Value: w, Timestamp: t2}}
	}
	called := 0
	before := time.Now().Unix() * 1000
	d.Callback = func(r *promql.Result) error {
		called++
		after := time.Now().Unix()*1000 + 1000
		vsym.Assert(r.Err == nil, "query succeeds")
		m, err := r.Matrix()
		vsym.Assert(err == nil, "a range query gives a matrix")
		if t1+10000 > after {
			return nil
		}
		vsym.Assert(len(m) <= 1, "one series")
		prev := int64(math.MinInt64)
		n := 0
		for _, s := range m {
			vsym.Assert(labels.Equal(s.Metric, vScraped[0]), "the selected series")
			for _, p := range s.Points {
				n++
				vsym.Assert(p.T >= before-int64(window/time.Millisecond)-1000, "not before the window")
				vsym.Assert(p.T <= after, "not after now")
				vsym.Assert(p.T >= t1, "no point before the first sample")
				vsym.Assert(prev == math.MinInt64 || p.T-prev == int64(step/time.Millisecond), "an interval apart")
				prev = p.T
				if p.T >= t2 {
					vsym.Assert(p.V == w, "the newest sample of its time")
				} else {
					vsym.Assert(p.V == v, "the newest sample of its time")
				}
			}
		}
		// one point for every interval from the first sample on
		from := t1
		if lo := after - int64(window/time.Millisecond); lo > from {
			from = lo
		}
		vsym.Assert(int64(n) >= (before-from)/int64(step/time.Millisecond)-1, "every interval of the window")
		return nil
	}
	vsym.Assert(d.Scrape(context.Background()) == nil, "scraped")
	vsym.Assert(called == 1, "called back once")
	vsym.Reach("ranged")
}

// A query that cannot be parsed is refused and changes nothing.
func VM01_query() {
	good := []string{`m`, `n`, `{a="x"}`, `sum(m)`}
	bad := []string{``, `m{`, `sum(`, `m n`, `m{a=}`, `1 +`, `)`, `m[`}
	src := &vSource{data: func(now int64) []ParsedSeries {
		return []ParsedSeries{{Labels: vScraped[0], Value: 1, Timestamp: now}, {Labels: vScraped[1], Value: 2, Timestamp: now}, {Labels: vScraped[2], Value: 4, Timestamp: now}}
	}}
	sums := []float64{3, 4, 5, 3}
	d := NewPeriodicData(src, DefaultEngineOptions(time.Hour, 1000))
	d.Times = Range{Instant: true}
	q := vsym.Choice("query", len(good))
	vsym.Assert(d.SetQuery(context.Background(), good[q]) == nil, "query accepted")
	if vsym.Choice("then", 2) == 1 {
		vsym.Assert(d.SetQuery(context.Background(), bad[vsym.Choice("bad", len(bad))]) != nil, "nonsense refused")
	} else {
		q = vsym.Choice("query", len(good))
		vsym.Assert(d.SetQuery(context.Background(), good[q]) == nil, "query accepted")
	}
	called := 0
	d.Callback = func(r *promql.Result) error {
		called++
		v, err := r.Vector()
		vsym.Assert(err == nil, "query succeeds")
		sum := 0.0
		for _, s := range v {
			sum += s.V
		}
		vsym.Assert(sum == sums[q], "the last accepted query is the one answered")
		return nil
	}
	vsym.Assert(d.Scrape(context.Background()) == nil, "scraped")
	vsym.Assert(called == 1, "called back once")
	vsym.Reach("queried")
}

// A query that can be parsed but not be answered as an instant or a range
// query is an error, of scrapes and of queries by hand, until there is a
// query that can be answered, which is answered on all that was scraped.
func VM01_unfit() {
	src := &vSource{}
	d := NewPeriodicData(src, DefaultEngineOptions(time.Hour, 1000))
	instant := vsym.Choice("instant", 2) == 1
	d.Times = Range{Window: time.Minute, Interval: 10 * time.Second, Instant: instant}
	// an answer or, if none is wanted, at most a failed result
	wanted := 0
	var sums []float64
	called, failed := 0, 0
	see := func(r *promql.Result) error {
		if r.Err != nil {
			failed++
			return r.Err
		}
		called++
		switch {
		case wanted == 0:
			vsym.Fail("there is no answer to a query that cannot be answered")
		case instant && wanted == 1:
			v, err := r.Vector()
			vsym.Assert(vsym.And(err == nil, len(v) == 1), "one value")
			vsym.Assert(v[0].V == sums[len(sums)-1], "the newest value")
		case wanted == 1:
			m, err := r.Matrix()
			vsym.Assert(vsym.And(err == nil, len(m) == 1), "one series")
			vsym.Assert(m[0].Points[len(m[0].Points)-1].V == sums[len(sums)-1], "the newest value")
		}
		return nil
	}
	d.Callback = see
	n := 2
	for i := 0; i < n; i++ {
		q, fit := "m", true
		switch vsym.Choice("query", 4) {
		case 1: // as an instant query these can be answered
			q, fit = "m[5m]", instant
		case 2:
			q, fit = `"text"`, instant
		case 3: // a failure while it is answered: two series match one
			q, fit = `m * on() {a="x"}`, false
		}
		vsym.Assert(d.SetQuery(context.Background(), q) == nil, "query accepted")
		wanted = 0
		if q == "m" {
			wanted = 1
		} else if fit {
			wanted = 2
		}
		v := vsym.Float64("value")
		vsym.Assume(v == v)
		src.data = func(now int64) []ParsedSeries {
			sums = append(sums, v)
			return []ParsedSeries{{Labels: vScraped[0], Value: v, Timestamp: now - 30000}, {Labels: vScraped[2], Value: 4, Timestamp: now - 30000}}
		}
		called, failed = 0, 0
		err := d.Scrape(context.Background())
		vsym.Assert((err == nil) == fit, "scraping says whether the query was answered")
		vsym.Assert(vsym.And(called == vsym.B2I(fit), failed <= vsym.B2I(!fit)), "called back with the answer, once")
		called, failed = 0, 0
		err = d.ManuallyExecuteQuery(context.Background(), see)
		vsym.Assert((err == nil) == fit, "querying says whether the query was answered")
		vsym.Assert(vsym.And(called == vsym.B2I(fit), failed <= vsym.B2I(!fit)), "called back with the answer, once")
	}
	vsym.Reach("unfit")
}

// Scrapes, changes of the query and queries by hand at the same time.
func VM01_concurrent() {
	vsym.Preempt(vsym.Bound("preemptions", 2, 3))
	src := &vSource{data: func(now int64) []ParsedSeries {
		return []ParsedSeries{{Labels: vScraped[0], Value: 1, Timestamp: now}, {Labels: vScraped[2], Value: 4, Timestamp: now}}
	}}
	d := NewPeriodicData(src, DefaultEngineOptions(time.Hour, 1000))
	d.Times = Range{Instant: true}
	vsym.Assert(d.SetQuery(context.Background(), `m`) == nil, "query accepted")
	d.Callback = func(r *promql.Result) error { return r.Err }
	vsym.Assert(d.Scrape(context.Background()) == nil, "scraped")
	done := make(chan bool)
	go func() {
		d.Scrape(context.Background())
		done <- true
	}()
	switch vsym.Choice("meanwhile", 3) {
	case 0:
		vsym.Assert(d.SetQuery(context.Background(), `n`) == nil, "query accepted")
	case 1:
		err := d.ManuallyExecuteQuery(context.Background(), func(r *promql.Result) error {
			v, err := r.Vector()
			vsym.Assert(vsym.And(err == nil, len(v) == 1), "what was scraped")
			return nil
		})
		vsym.Assert(err == nil, "queried")
	case 2:
		vsym.Assert(d.GetIndex().GetMetricNames().Has("m"), "indexed")
		vsym.Assert(d.GetIndex().GetStoredValuesForMetricAndDimension("m", "a").Has("x"), "indexed")
	}
	<-done
	vsym.Reach("met")
}
