package earley

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VH02_bytes", VH02_bytes)
	vsym.Register("VH02_mixed", VH02_mixed)
	vsym.Register("VH02_after", VH02_after)
}

// Any bytes.
func VH02_bytes() {
	q := vsym.String("text", vsym.Choice("length", vsym.Bound("bytes", 2, 3)+1))
	vCompleter().GenerateSuggestions(q, len(q))
	vsym.Reach("completed")
}

// A text of words with any byte put in anywhere, and the cursor anywhere.
func VH02_mixed() {
	q := vContexts[vsym.Choice("context", len(vContexts))].text + "fo) "
	n := vsym.Bound("places", 2, 5)
	at := len(q) * (1 + vsym.Choice("at", n)) / n
	q = q[:at] + vsym.String("byte", 1) + q[at:]
	pos := len(q) - vsym.Choice("cursor", 2)
	vCompleter().GenerateSuggestions(q, pos)
	vsym.Reach("completed")
}

// Any bytes after any place in a query that has a meaning of its own.
func VH02_after() {
	q := []string{"foo[", "foo[5", "foo[5m:", "foo offset ", "foo offset 5", "foo{a=", "foo{a=\"", "5", "0x", "foo{a=~'", "foo[5m] offset 1", "5e", "foo{a=`"}[vsym.Choice("context", 13)]
	q += vsym.String("bytes", 1+vsym.Choice("length", vsym.Bound("bytes", 1, 2)))
	vCompleter().GenerateSuggestions(q, len(q))
	vsym.Reach("completed")
}
