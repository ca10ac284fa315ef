package earley

import (
	"strings"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH05_many", VH05_many)
}

// Long texts: something repeated many times.
func VH05_many() {
	vsym.MaxSteps(60_000_000)
	n := vsym.Bound("many words", 6, 10)
	r := func(s string) string { return strings.Repeat(s, n) }
	texts := []string{
		r("sum ( "),
		r("foo + "),
		"foo { " + r("a = \"v\" , "),
		"foo { " + r("a = \"v\" , ") + "a = \"v\" } ",
		"sum ( foo ) by ( " + r("a , "),
		"sum by ( " + r("a , ") + ") ",
		strings.Repeat("rate ( foo [ 5m ] ) > bool ", n/2),
		r("( - "),
		"abs ( " + r("foo , "),
		r("( ") + "foo + 5 " + r(") "),
		strings.Repeat("foo * on ( a ) group_left ( b ) ", n/2),
	}
	words := strings.Fields(texts[vsym.Choice("text", len(texts))])
	words = words[:len(words)-vsym.Choice("cut", vsym.Bound("cut", 2, 6))]
	toks := extractWords(strings.Join(words, " ") + " ")
	if len(toks) == 0 || toks[len(toks)-1].Type != EOF {
		return
	}
	var types []TokenType
	for _, t := range toks[:len(toks)-1] {
		types = append(types, t.Type)
	}
	vSameTypes(PromQLParser.GetSuggestedTokenType(toks), vNext(vPromRules, types), "query")
	vsym.Reach("parsed")
}
