package autocomplete

import (
	"strconv"
	"strings"

	"sigs.k8s.io/instrumentation-tools/notstdlib/sets"
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VH03_many", VH03_many)
}

// vSubsequence: the letters of sub occur in s in this order.
func vSubsequence(s, sub string) bool {
	j := 0
	for i := 0; i < len(s) && j < len(sub); i++ {
		if s[i] == sub[j] {
			j++
		}
	}
	return j == len(sub)
}

// Many and long items, filtered by any beginning or some letters of one of
// them.
func VH03_many() {
	n := vsym.Bound("many items", 120, 400)
	set := sets.NewString()
	var items []string
	for i := 0; i < n; i++ {
		s := []string{"container_network_Receive_bytes_", "Apiserver_request_duration_seconds_bucket_", "x"}[i%3] + strconv.Itoa(i)
		if i%20 == 19 {
			s = strings.Repeat("a_long_name_", 30) + s
		}
		items = append(items, s)
		set.Insert(s)
	}
	of := items[[]int{0, 1, 2, 19, 59, n - 1}[vsym.Choice("item", 6)]]
	ignoreCase := vsym.Choice("ignore case", 2) == 1
	fold := func(s string) string {
		if ignoreCase {
			return strings.ToLower(s)
		}
		return s
	}
	var sub string
	var got sets.String
	var match func(s, sub string) bool
	if vsym.Choice("fuzzy", 2) == 1 {
		step := 1 + vsym.Choice("letters", 3)*7
		for i := 0; i < len(of); i += step {
			sub += of[i : i+1]
		}
		match = vSubsequence
	} else {
		sub = of[:len(of)*(1+vsym.Choice("length", 4))/4]
		match = strings.HasPrefix
	}
	switch vsym.Choice("as", 3) {
	case 1:
		sub = strings.ToUpper(sub)
	case 2:
		sub += "z"
	}
	if match("ab", "a") && !match("ba", "a") {
		got = FilterPrefix(set, sub, ignoreCase)
	} else {
		got = FilterFuzzy(set, sub, ignoreCase)
	}
	want := 0
	for _, s := range items {
		ok := sub == "" || match(fold(s), fold(sub))
		vsym.Assert(got.Has(s) == ok, "exactly the items that match, as they are")
		if ok {
			want++
		}
	}
	vsym.Assert(got.Len() == want, "nothing else")
	vsym.Assert(set.Len() == n, "the items themselves stay")
	if vsym.Choice("quoted", 2) == 1 {
		q := Enquote(set)
		vsym.Assert(q.Len() == n, "as many as before")
		for _, s := range items {
			vsym.Assert(q.Has("\""+s+"\""), "an item in quotes")
		}
	}
	vsym.Reach("filtered")
}
