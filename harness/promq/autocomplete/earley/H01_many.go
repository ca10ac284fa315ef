package earley

import (
	"strings"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH01_many", VH01_many)
}

// Many texts after another, before the one that counts.
func VH01_many() {
	vsym.MaxSteps(100_000_000)
	n := vsym.Bound("many texts", 12, 24)
	var qs []string
	how := vsym.Choice("history", 4)
	for i := 0; i < n; i++ {
		switch how {
		case 0: // other queries
			qs = append(qs, vContexts[i%len(vContexts)].text)
		case 1: // typed word by word, over and over
			qs = append(qs, strings.Join(vLine[:i%len(vLine)], " ")+" ")
		case 2: // the same again
			qs = append(qs, vContexts[3].text)
		case 3: // one word more each time
			qs = append(qs, strings.Repeat("foo + ", i/2))
		}
	}
	qs = append(qs, vContexts[vsym.Choice("context", len(vContexts))].text)
	vSameAfter(qs)
	vsym.Reach("typed")
}
