package earley

import (
	"sort"
	"strconv"
	"strings"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH04_many", VH04_many)
	vsym.Register("VH04_details", VH04_details)
}

// vManyIndex is an index of many metrics with many labels and many values.
type vManyIndex struct{ metrics, labels, values []string }

func (x vManyIndex) GetMetricNames() sets.String { return sets.NewString(x.metrics...) }
func (x vManyIndex) GetStoredDimensionsForMetric(m string) sets.String {
	if m != x.metrics[len(x.metrics)-1] {
		return sets.NewString()
	}
	return sets.NewString(x.labels...)
}
func (x vManyIndex) GetStoredValuesForMetricAndDimension(m, l string) sets.String {
	if m != x.metrics[len(x.metrics)-1] || l != x.labels[len(x.labels)-1] {
		return sets.NewString()
	}
	return sets.NewString(x.values...)
}

func vNames(prefix string, n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		s := prefix + strconv.Itoa(i)
		if i == n/2 {
			s = prefix + strings.Repeat("long_", 60) + s
		}
		out = append(out, s)
	}
	return out
}

// Many metrics, labels and values, and long texts before what is completed.
func VH04_many() {
	n := vsym.Bound("many candidates", 70, 200)
	long := vsym.Bound("many words", 8, 16)
	x := vManyIndex{vNames("metric_", n), vNames("label_", n), vNames("value ", n)}
	m, l := x.metrics[n-1], x.labels[n-1]
	prefix := ""
	var text string
	var all []string
	switch vsym.Choice("what", 3) {
	case 0:
		text = []string{"", strings.Repeat("max(", long), strings.Repeat("x + ", long)}[vsym.Choice("before", 3)]
		prefix, all = "metric_", x.metrics
	case 1:
		text = []string{m + "{", m + "{" + strings.Repeat("a=\"b\",", long), "sum(" + m + ") by (" + strings.Repeat("a,", long)}[vsym.Choice("before", 3)]
		prefix, all = "label_", x.labels
	case 2:
		text = []string{m + "{" + l + "=", m + "{" + strings.Repeat("a=\"b\",", long) + l + "="}[vsym.Choice("before", 2)]
		prefix = "\"value "
		for _, v := range x.values {
			all = append(all, "\""+v+"\"")
		}
	}
	if prefix[0] != '"' { // a space begins another word
		prefix = []string{prefix, prefix + "1", prefix + "long_"}[vsym.Choice("typed", 3)]
	} else {
		prefix = "\""
	}
	want := map[string]bool{}
	for _, s := range all {
		if strings.HasPrefix(s, prefix) {
			want[s] = true
		}
	}
	q := text + prefix
	ms := NewPromQLCompleter(x).GenerateSuggestions(q, len(q))
	vsym.Assert(len(ms) == len(want), "each suggested once")
	vCheckMatches(ms, want)
	vsym.Reach("completed")
}

// The details of a metric are its labels, those of a label its values.
func VH04_details() {
	c := vContexts[vsym.Choice("context", len(vContexts))]
	for _, m := range vCompleter().GenerateSuggestions(c.text, len(c.text)) {
		var want []string
		switch m.GetKind() {
		case "metric-label":
			for _, v := range vMetrics[c.metric][m.GetValue()] {
				want = append(want, strconv.Quote(v))
			}
		case "metric-id":
			if strings.HasPrefix(m.GetValue(), "\"") {
				continue
			}
			for l := range vMetrics[m.GetValue()] {
				want = append(want, l)
			}
		default:
			continue
		}
		sort.Strings(want)
		vsym.Assert(m.GetDetail() == strings.Join(want, ","), "the labels of a metric or the values of a label")
		vsym.Reach("detailed")
	}
}

var _ autocomplete.QueryIndex = vManyIndex{}
