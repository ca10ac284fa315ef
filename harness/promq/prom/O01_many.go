package prom

import (
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VO01_many", VO01_many)
}

// Many samples, with many and long labels.
func VO01_many() {
	n := vsym.Bound("many samples", 200, 1000)
	vec := vManySamples(n)
	k := vsym.Choice("where", 3) * (n - 1) / 2
	vec[k].Metric = labels.Labels{{Name: "a", Value: "w" + vsym.String("value", 1)}}
	var want []string
	for _, s := range vec {
		want = append(want, vLine(s.Metric, s.V, s.T))
	}
	out, err := ToPrettyFormat(&promql.Result{Value: vec}, "prometheus", vsym.Choice("coloured", 2) == 1)
	vsym.Assert(err == nil, "formatted")
	vsym.Assert(*out == strings.Join(want, "\n"), "a line for each sample")
	vsym.Reach("formatted")
}
