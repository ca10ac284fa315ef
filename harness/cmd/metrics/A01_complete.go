package metrics

import (
	"strings"

	"github.com/c-bata/go-prompt"
	"github.com/prometheus/prometheus/pkg/labels"

	"sigs.k8s.io/instrumentation-tools/promq/autocomplete/earley"
	"sigs.k8s.io/instrumentation-tools/promq/prom"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VA01_accept", VA01_accept)
	vsym.Register("VA01_typed", VA01_typed)
}

func vCompleter() *Completer {
	ix := prom.NewIndex()
	for _, l := range []labels.Labels{
		labels.FromStrings("__name__", "bar", "a", "x y", "ab", "ü"),
		labels.FromStrings("__name__", "foo_total", "b", `"q"`),
	} {
		ix.UpdateMetric(prom.ParsedSeries{Labels: l})
	}
	return NewCompleter(earley.NewPromQLCompleter(ix))
}

// vAccept puts text before the cursor the way the prompt does when a
// suggestion is chosen.
func vAccept(before, after string, s prompt.Suggest) (string, string) {
	b := prompt.NewBuffer()
	b.InsertText(before+after, false, true)
	b.CursorLeft(len([]rune(after)))
	if w := b.Document().GetWordBeforeCursorUntilSeparator(PromQLTokenSeparators); w != "" {
		b.DeleteBeforeCursor(len([]rune(w)))
	}
	b.InsertText(s.Text, false, true)
	return b.Document().TextBeforeCursor(), b.Document().TextAfterCursor()
}

func vDocument(before, after string) prompt.Document {
	b := prompt.NewBuffer()
	b.InsertText(before+after, false, true)
	b.CursorLeft(len([]rune(after)))
	return *b.Document()
}

func vCheckAccept(c *Completer, before, after string) {
	ss := c.Complete(vDocument(before, after))
	ms := c.promCompleter.GenerateSuggestions(before, len(before))
	if before == "" {
		vsym.Assert(len(ss) == 0, "nothing is suggested before anything is typed")
		return
	}
	vsym.Assert(len(ss) == len(ms), "what may follow the text before the cursor is suggested")
	for i, s := range ss {
		vsym.Assert(s.Description == ms[i].GetDetail(), "the details of the suggestion")
		b, a := vAccept(before, after, s)
		vsym.Assert(a == after, "the text after the cursor stays")
		vsym.Assert(strings.HasPrefix(b, before), "what was typed stays")
		vsym.Assert(strings.HasSuffix(b, ms[i].GetValue()), "the suggested word is completed")
		vsym.Assert(len(b) <= len(before)+len(ms[i].GetValue()), "nothing else is added")
	}
	if len(ss) > 0 {
		vsym.Reach("suggested")
	}
}

var vTyped = []string{
	"", "b", "bar", "bar ", "1+", "1+b", "bar/f", "-b", "bar*f", "bar>f", "bar<f", "bar%f", "bar^f", "sum(", "sum(b", "sum(bar)by(", "sum(bar)by(a",
	"bar{", "bar{a", "bar{a=", "bar{a=\"", "bar{a=\"x", "bar{a=\"x y", "bar{ab=\"ü", "bar{ab=\"ü\",a", "foo_total{b=\"", "bar{a!", "bar[", "bar[5", "bar[5m:1", "bar offset 1", "bar and f",
	"rate(bar[1", "\"ü\" + b", "\"日本\" + b", "ü", "bar{a=\"x\"}+f", "b\t", "rate(f",
}

// Accepting any suggestion for any of these texts.
func VA01_accept() {
	before := vTyped[vsym.Choice("typed", len(vTyped))]
	after := []string{"", ")", " + ü", "oo"}[vsym.Choice("after", 4)]
	vCheckAccept(vCompleter(), before, after)
}

// Any ending of the text typed.
func VA01_typed() {
	before := []string{"bar", "1", "bar{a=\"x\"}", "sum(", "bar["}[vsym.Choice("typed", 5)]
	before += vsym.String("more", 1+vsym.Choice("length", vsym.Bound("characters typed", 1, 2)))
	for i := 0; i < len(before); i++ {
		vsym.Assume(vsym.And(before[i] >= ' ', before[i] < 127))
	}
	vCheckAccept(vCompleter(), before, "")
}
