package earley

// Texts, what may follow, and the metric and label that labels and values are
// suggested of.
var vContexts = []struct{ text, types, metric, label string }{
	{"", "metric aggregator_operation function-scalar-identifier function-vector-identifier unary-op", "", ""},
	{"foo ", "offset-keyword arithmetic comparision set", "", ""},
	{"foo{", "label", "foo", ""},
	{"foo{ab=", "value", "foo", "ab"},
	{"foo{ab=\"v\",", "label", "foo", ""},
	{"foo{ab=\"v\",de!=", "value", "foo", "de"},
	{"foo{ab ", "label-match", "", ""},
	{"foo{ab=\"v\"} + bar{", "label", "bar", ""},
	{"foo{ab=\"v\"} + bar{cd=~", "value", "bar", "cd"},
	{"bar{cd=\"1\"} > ", "metric aggregator_operation function-scalar-identifier function-vector-identifier bool-keyword group-keyword", "", ""},
	{"sum(bar) ", "aggregator_keyword arithmetic comparision set", "", ""},
	{"sum(foo) by (", "label", "foo", ""},
	{"sum(bar{cd=\"1\"}) by (cd, ", "label", "bar", ""},
	{"nope{", "label", "nope", ""},
	{"foo * on(de) ", "metric aggregator_operation function-scalar-identifier function-vector-identifier group-side", "", ""},
	{"5 + ", "metric aggregator_operation function-scalar-identifier function-vector-identifier", "", ""},
	{"$ ", "", "", ""},
}
