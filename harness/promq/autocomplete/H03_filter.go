package autocomplete

import (
	"strconv"
	"strings"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH03_prefix", VH03_prefix)
	vsym.Register("VH03_fuzzy", VH03_fuzzy)
	vsym.Register("VH03_enquote", VH03_enquote)
}

func vLower(b byte) byte {
	return byte(vsym.Ite(vsym.And(b >= 'A', b <= 'Z'), int(b)+32, int(b)))
}

func vText(name string, max int) string {
	s := vsym.String(name, vsym.Choice(name+" length", max+1))
	for i := 0; i < len(s); i++ {
		vsym.Assume(s[i] < 0x80)
	}
	return s
}

func vItems(n, max int) (sets.String, []string) {
	set := sets.NewString()
	var l []string
	for i := 0; i < n; i++ {
		s := vText("item", max)
		for _, o := range l {
			vsym.Assume(s != o)
		}
		l = append(l, s)
		set.Insert(s)
	}
	return set, l
}

func vCheckFiltered(got sets.String, items []string, want []bool) {
	n := 0
	for i, s := range items {
		vsym.Assert(got.Has(s) == want[i], "exactly the items that match, as they are")
		n += vsym.B2I(want[i])
	}
	vsym.Assert(got.Len() == n, "nothing else")
}

func vByteEq(a, b byte, ignoreCase bool) bool {
	if ignoreCase {
		return vLower(a) == vLower(b)
	}
	return a == b
}

// Any two items and any prefix, whether or not case matters.
func VH03_prefix() {
	set, items := vItems(2, 2)
	prefix := vText("prefix", 2)
	ignoreCase := vsym.Choice("ignore case", 2) == 1
	want := make([]bool, len(items))
	for i, s := range items {
		want[i] = len(s) >= len(prefix)
		for j := 0; want[i] && j < len(prefix); j++ {
			want[i] = vByteEq(s[j], prefix[j], ignoreCase)
		}
	}
	got := FilterPrefix(set, prefix, ignoreCase)
	vCheckFiltered(got, items, want)
	vCheckFiltered(set, items, []bool{true, true})
	vsym.Reach("filtered")
}

// Any item and any letters to look for in this order.
func VH03_fuzzy() {
	set, items := vItems(1, vsym.Bound("bytes of the item", 3, 4))
	sub := vText("sub", 2)
	ignoreCase := vsym.Choice("ignore case", 2) == 1
	s := items[0]
	// at[j]: the first j letters occur in order
	at := make([]bool, len(sub)+1)
	at[0] = true
	for i := 0; i < len(s); i++ {
		for j := len(sub); j > 0; j-- {
			at[j] = vsym.Or(at[j], vsym.And(at[j-1], vByteEq(s[i], sub[j-1], ignoreCase)))
		}
	}
	vCheckFiltered(FilterFuzzy(set, sub, ignoreCase), items, []bool{at[len(sub)]})
	vsym.Reach("filtered")
}

// Quoting keeps items apart and readable.
func VH03_enquote() {
	set, items := vItems(2, 1)
	q := Enquote(set)
	vsym.Assert(q.Len() == len(items), "as many as before")
	for _, s := range q.List() {
		vsym.Assert(strings.HasPrefix(s, "\"") && strings.HasSuffix(s, "\"") && len(s) >= 2, "in quotes")
		u, err := strconv.Unquote(s)
		vsym.Assert(err == nil && set.Has(u), "an item in quotes")
	}
	vsym.Reach("quoted")
}
