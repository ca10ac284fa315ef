package earley

import (
	"github.com/prometheus/prometheus/promql/parser"
	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"
)

// vIndex is a fixed index of two metrics.
type vIndex struct{}

var vMetrics = map[string]map[string][]string{
	"foo": {"ab": {"v", "w\"x"}, "de": {"1"}},
	"bar": {"cd": {"u"}},
}

func (vIndex) GetMetricNames() sets.String { return sets.StringKeySet(vMetrics) }
func (vIndex) GetStoredDimensionsForMetric(m string) sets.String {
	return sets.StringKeySet(vMetrics[m])
}
func (vIndex) GetStoredValuesForMetricAndDimension(m, d string) sets.String {
	return sets.NewString(vMetrics[m][d]...)
}

func vCompleter() autocomplete.PromQLCompleter { return NewPromQLCompleter(vIndex{}) }

func vValues(ms []autocomplete.Match) []string {
	var out []string
	for _, m := range ms {
		out = append(out, m.GetValue())
	}
	return out
}

const vEOF = parser.EOF
