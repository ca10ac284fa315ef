package earley

import (
	"strings"

	"github.com/prometheus/prometheus/promql/parser"
	"sigs.k8s.io/instrumentation-tools/promq/autocomplete"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH04_prefix", VH04_prefix)
	vsym.Register("VH04_time", VH04_time)
	vsym.Register("VH04_accept", VH04_accept)
	vsym.Register("VH04_cursor", VH04_cursor)
}

// What is suggested for each type of token; fixed words of PromQL.
var vFixed = map[string]string{
	"aggregator_operation":       "sum max min avg stddev stdvar count count_values bottomk topk quantile",
	"aggregator_keyword":         "by without",
	"offset-keyword":             "offset",
	"bool-keyword":               "bool",
	"group-keyword":              "ignoring on",
	"group-side":                 "group_left group_right",
	"arithmetic":                 "+ - * / % ^",
	"unary-op":                   "+ -",
	"comparision":                "== != > < >= <=",
	"set":                        "and or unless",
	"label-match":                "= != =~ !~",
	"function-scalar-identifier": "time scalar",
	"function-vector-identifier": "abs absent absent_over_time avg_over_time ceil changes clamp_max clamp_min count_over_time days_in_month day_of_month day_of_week delta deriv exp floor histogram_quantile holt_winters hour idelta increase irate label_replace label_join ln log10 log2 max_over_time min_over_time minute month predict_linear quantile_over_time rate resets round sort sort_desc sqrt stddev_over_time stdvar_over_time sum_over_time timestamp vector year",
}

func vWanted(types, metric, label, prefix string) map[string]bool {
	want := map[string]bool{}
	add := func(w string) {
		if strings.HasPrefix(w, prefix) {
			want[w] = true
		}
	}
	for _, t := range strings.Fields(types) {
		switch t {
		case "metric":
			add("foo")
			add("bar")
		case "label":
			for d := range vMetrics[metric] {
				add(d)
			}
		case "value":
			for _, v := range vMetrics[metric][label] {
				add("\"" + strings.ReplaceAll(v, "\"", "\\\"") + "\"")
			}
		default:
			for _, w := range strings.Fields(vFixed[t]) {
				add(w)
			}
		}
	}
	return want
}

func vCheckMatches(ms []autocomplete.Match, want map[string]bool) {
	got := map[string]bool{}
	for _, m := range ms {
		vsym.Assert(want[m.GetValue()], "only words that may follow and complete what was typed")
		got[m.GetValue()] = true
	}
	vsym.Assert(len(got) == len(want), "all words that may follow and complete what was typed")
}

// A context, and any beginning of a word.
func VH04_prefix() {
	c := vContexts[vsym.Choice("context", len(vContexts))]
	prefix := vsym.String("prefix", vsym.Choice("length", vsym.Bound("bytes of the prefix", 1, 2)+1))
	for i := 0; i < len(prefix); i++ {
		b := prefix[i]
		vsym.Assume(vsym.Or(b >= 'a' && b <= 'z', b == '_', b == '"', b >= '0' && b <= '9'))
	}
	q := c.text + prefix
	vCheckMatches(vCompleter().GenerateSuggestions(q, len(q)), vWanted(c.types, c.metric, c.label, prefix))
	vsym.Reach("completed")
}

// Durations: units after a number.
func VH04_time() {
	ctx := []string{"foo[", "foo offset ", "foo{ab=\"v\"}[", "foo[5m:"}[vsym.Choice("context", 4)]
	digits := vsym.String("digits", vsym.Choice("length", 3))
	num := len(digits) > 0
	for i := 0; i < len(digits); i++ {
		b := digits[i]
		vsym.Assume(b >= '0' && b <= '9')
	}
	want := map[string]bool{}
	if num {
		for _, u := range []string{"s", "m", "h", "d", "w", "y"} {
			want[u] = true
		}
	}
	q := ctx + digits
	vCheckMatches(vCompleter().GenerateSuggestions(q, len(q)), want)
	vsym.Reach("completed")
}

// Every suggested word makes a token of the type it was suggested for, and a
// function that exists.
func VH04_accept() {
	c := vContexts[vsym.Choice("context", len(vContexts))]
	ms := vCompleter().GenerateSuggestions(c.text, len(c.text))
	if len(ms) == 0 {
		return
	}
	m := ms[vsym.Choice("suggestion", len(ms))]
	toks := extractWords(c.text + m.GetValue() + " ")
	vsym.Assert(len(toks) > 1, "the suggested word is a token")
	last := toks[len(toks)-2]
	vsym.Assert(last.Val == m.GetValue(), "the suggested word is one token")
	switch k := m.GetKind(); k {
	case "metric-id", "metric-label", "time-unit":
	case "unary-op":
		vsym.Assert(last.Type == ARITHMETIC, "a token of the suggested type")
	case "label-match", "comparision":
		vsym.Assert(last.Type == OPERATOR, "a token of the suggested type")
	default:
		vsym.Assert(string(last.Type) == k, "a token of the suggested type")
	}
	if last.Type == FUNCTION_SCALAR_ID || last.Type == FUNCTION_VECTOR_ID {
		f, ok := parser.Functions[m.GetValue()]
		vsym.Assert(ok, "the suggested function exists")
		vsym.Assert((f.ReturnType == parser.ValueTypeScalar) == (last.Type == FUNCTION_SCALAR_ID), "the type of the function")
	}
	vsym.Assert(len(PromQLParser.GetSuggestedTokenType(toks)) > 0, "something may follow the suggested word")
	vsym.Reach("accepted")
}

// Only what is before the cursor matters.
func VH04_cursor() {
	q := vContexts[vsym.Choice("context", 9)].text
	q += "fo"
	rest := vsym.String("rest", vsym.Choice("length", 3))
	a := vValues(vCompleter().GenerateSuggestions(q, len(q)))
	b := vValues(vCompleter().GenerateSuggestions(q+rest, len(q)))
	vsym.Assert(len(a) == len(b), "as many suggestions")
	for i := range a {
		vsym.Assert(a[i] == b[i], "the same suggestions")
	}
	vsym.Reach("completed")
}
