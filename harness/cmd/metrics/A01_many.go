package metrics

import (
	"strconv"
	"strings"

	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VA01_many", VA01_many)
}

// Many candidates, and long texts around the cursor.
func VA01_many() {
	n := vsym.Bound("many candidates", 60, 150)
	ix := prom.NewIndex()
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("__name__", "metric_"+strings.Repeat("with_a_long_name_", i%20)+s, "a", "x"+s)})
		ix.UpdateMetric(prom.ParsedSeries{Labels: labels.FromStrings("__name__", "bar", "label_"+s, "x", "a", "x"+s)})
	}
	c := NewCompleter(earley.NewPromQLCompleter(ix))
	long := strings.Repeat("foo+", vsym.Bound("many words", 6, 12))
	typed := []struct {
		before string
		many   bool
	}{
		{"metric_", true}, {"metric_with", false}, {long + "metric_", true}, {"bar{", true}, {"bar{label_", true}, {"bar{a=", true}, {"bar{a=\"x", true},
		{"bar{" + strings.Repeat("a=\"b\",", 8) + "label_1", false}, {"sum(bar)by(" + strings.Repeat("a,", 10), true}, {long, true},
	}
	t := typed[vsym.Choice("typed", len(typed))]
	after := []string{"", long + "ü"}[vsym.Choice("after", 2)]
	vCheckAccept(c, t.before, after)
	ss := c.Complete(vDocument(t.before, after))
	vsym.Assert(!t.many || len(ss) >= n, "all candidates")
	seen := map[string]bool{}
	for _, s := range ss {
		vsym.Assert(!seen[s.Text], "each once")
		seen[s.Text] = true
	}
}
