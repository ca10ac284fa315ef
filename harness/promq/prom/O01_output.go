package prom

import (
	"errors"
	"strconv"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VO01_lines", VO01_lines)
	vsym.Register("VO01_other", VO01_other)
}

var vNames = [][]string{
	{"__name__"}, {"__name__", "a"}, {"a"}, {}, {"__name__", "a", "b"}, {"Z", "__name__", "a"}, {"__name__", "__name_"},
}

// vLine: a sample as its selector, value and time.
func vLine(m labels.Labels, v float64, t int64) string {
	name, pairs := "", []string{}
	for _, l := range m {
		if l.Name == "__name__" {
			name = l.Value
		} else {
			pairs = append(pairs, l.Name+"="+strconv.Quote(l.Value))
		}
	}
	return name + "{" + strings.Join(pairs, ", ") + "} => " + strconv.FormatFloat(v, 'f', -1, 64) + " @[" + strconv.FormatInt(t, 10) + "]"
}

// Every sample of a result is on its own line, in order, with its name, all
// its other labels, its value and its time; and the result stays as it is.
func VO01_lines() {
	n := vsym.Choice("samples", vsym.Bound("samples", 3, 4))
	var vec promql.Vector
	var want []string
	var keep []labels.Labels
	for i := 0; i < n; i++ {
		names := vNames[vsym.Choice("labels", len(vNames))]
		var m, k labels.Labels
		for j, name := range names {
			val := "v" + strconv.Itoa(i) + strconv.Itoa(j)
			if i == n-1 && n < 3 && name != "__name__" {
				val = vsym.String("value", 1) + "x"
			}
			m = append(m, labels.Label{Name: name, Value: val})
			k = append(k, labels.Label{Name: name, Value: val})
		}
		v := []float64{0, -1.5, 1e20}[i%3]
		t := []int64{0, -7, 1600000000000}[i%3]
		vec = append(vec, promql.Sample{Point: promql.Point{T: t, V: v}, Metric: m})
		want = append(want, vLine(m, v, t))
		keep = append(keep, k)
	}
	out, err := ToPrettyFormat(&promql.Result{Value: vec}, "prometheus", vsym.Choice("coloured", 2) == 1)
	vsym.Assert(err == nil, "formatted")
	vsym.Assert(*out == strings.Join(want, "\n"), "a line for each sample")
	vsym.Assert(len(vec) == n, "the result is left alone")
	for i := range keep {
		vsym.Assert(labels.Equal(vec[i].Metric, keep[i]), "the result is left alone")
	}
	vsym.Reach("formatted")
}

// Errors of the query and unknown formats are errors; results that are no
// vectors are shown too.
func VO01_other() {
	format := []string{"prometheus", "json", "yaml"}[vsym.Choice("format", 3)]
	coloured := vsym.Choice("coloured", 2) == 1
	ok := &promql.Result{Value: promql.Scalar{T: 5, V: 2}}
	switch vsym.Choice("kind", 4) {
	case 0:
		e := errors.New("query")
		out, err := ToPrettyFormat(&promql.Result{Err: e, Value: promql.Vector{}}, format, coloured)
		vsym.Assert(out == nil && errors.Is(err, e), "the error of the query is reported")
	case 1:
		f := vsym.String("format", vsym.IntRange("len", 0, 4))
		vsym.Assume(vsym.And(f != "json", f != "yaml"))
		out, err := ToPrettyFormat(ok, f, coloured)
		vsym.Assert(out == nil && err != nil, "an unknown format is refused")
	case 2:
		out, err := ToPrettyFormat(ok, "prometheus", coloured)
		vsym.Assert(err == nil && *out == ok.Value.String(), "a scalar is shown")
	case 3:
		m := promql.Matrix{{Metric: labels.FromStrings("__name__", "m", "a", "x"), Points: []promql.Point{{T: 1, V: 2}, {T: 3, V: 4}}}}
		out, err := ToPrettyFormat(&promql.Result{Value: m}, "prometheus", coloured)
		vsym.Assert(err == nil && *out == m.String(), "a matrix is shown")
	}
	vsym.Reach("handled")
}
