package earley

import (
	"strings"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH01_history", VH01_history)
	vsym.Register("VH01_edits", VH01_edits)
	vsym.Register("VH01_replace", VH01_replace)
	vsym.Register("VH01_rename", VH01_rename)
}

var vWords = []string{"foo", "bar", "{", "$"}

func vText(name string, n int) string {
	t := ""
	for i, k := 0, vsym.Choice(name+"length", n+1); i < k; i++ {
		t += vWords[vsym.Choice(name, len(vWords))] + " "
	}
	return t
}

func vSameAfter(qs []string) {
	c := vCompleter()
	PromQLParser = NewEarleyParser(*promQLGrammar)
	var got, want []string
	var gotD, wantD []string
	for _, q := range qs {
		got, gotD = nil, nil
		for _, m := range c.GenerateSuggestions(q, len(q)) {
			got, gotD = append(got, m.GetValue()), append(gotD, m.GetDetail())
		}
	}
	PromQLParser = NewEarleyParser(*promQLGrammar)
	q := qs[len(qs)-1]
	for _, m := range c.GenerateSuggestions(q, len(q)) {
		want, wantD = append(want, m.GetValue()), append(wantD, m.GetDetail())
	}
	vsym.Assert(len(got) == len(want), "as many suggestions as without history")
	for i := range got {
		vsym.Assert(got[i] == want[i] && gotD[i] == wantD[i], "the same suggestions as without history")
	}
	vsym.Reach("compared")
}

// Whatever was asked before, the suggestions are those for the text alone.
func VH01_history() {
	n := vsym.Bound("words of the earlier texts", 1, 2)
	m := vsym.Bound("words of the last text", 2, 2)
	vSameAfter([]string{vText("first", n), vText("second", n), vText("last", m)})
}

var vLine = []string{"sum", "(", "foo", "{", "ab", "=", "\"v\"", "}", ")", "by", "("}

// Typing a query, with a part of it deleted and something else typed.
func VH01_edits() {
	var qs []string
	t := func(words []string) (s string) {
		for _, w := range words {
			s += w + " "
		}
		return
	}
	n := vsym.Choice("typed", len(vLine)+1)
	keep := n * vsym.Choice("kept", 3) / 2
	qs = append(qs, t(vLine[:n]))
	other := []string{"bar", "{", "+", "\""}
	words := append(append([]string{}, vLine[:keep]...), other[vsym.Choice("other", vsym.Bound("other words", 1, 4))])
	qs = append(qs, t(words))
	more := 1 + vsym.Choice("more", len(vLine))
	if vsym.Tier() == "quick" {
		vsym.Assume(more%4 == 3)
	}
	if vsym.Choice("retyped", 2) == 1 {
		words = vLine[:more]
	} else {
		words = append(words, vLine[more:vMin(more+2, len(vLine))]...)
	}
	qs = append(qs, t(words))
	vSameAfter(qs)
}

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// One word in the middle replaced by another, everything else kept.
func VH01_replace() {
	lines := []string{
		"foo { ab = \"v\" } + bar",
		"sum ( foo ) by ( ab )",
		"foo * on ( de ) group_left ( ab ) bar {",
		"abs ( foo [ 5m : 1h ] , 5 ) > bool bar",
	}
	q := strings.Fields(lines[vsym.Choice("line", vsym.Bound("lines", 3, len(lines)))])
	other := []string{"bar", "and", "-", "}", "7", "xyz", "=~", "(", "sum", "\"u\"", "2d", "[", "rate", "without"}
	at := vsym.Choice("at", len(q))
	with := other[vsym.Choice("with", vsym.Bound("replacements", 4, len(other)))]
	end := at + 1 + vsym.Choice("asked from", vsym.Bound("asked at", 1, 4))
	if end > len(q) || q[at] == with {
		return
	}
	edited := append([]string{}, q...)
	edited[at] = with
	vSameAfter([]string{strings.Join(q, " ") + " ", strings.Join(edited[:end], " ") + " "})
	vsym.Reach("replaced")
}

// A name in the text replaced by another of the same or another length, where
// what may follow depends on it.
func VH01_rename() {
	q := vContexts[vsym.Choice("context", len(vContexts))].text
	var names, at = []string{"foo", "bar", "ab", "de", "cd", "sum"}, []int{}
	for i := range q {
		for _, n := range names {
			if strings.HasPrefix(q[i:], n) {
				at = append(at, i)
			}
		}
	}
	if len(at) == 0 {
		return
	}
	i := at[vsym.Choice("at", len(at))]
	n := 2
	if q[i] == 'f' || q[i] == 'b' || q[i] == 's' {
		n = 3
	}
	others := [][]string{{"ab", "cd", "x"}, {"foo", "bar", "max", "by"}}[n-2]
	other := others[vsym.Choice("other", len(others))]
	if other == q[i:i+n] {
		return
	}
	vSameAfter([]string{q[:i] + other + q[i+n:], q})
	vsym.Reach("renamed")
}
