package prom

import (
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VP01_many", VP01_many)
}

// Many series and one of any id, of which some are deleted.
func VP01_many() {
	p := NewmemPostings()
	n := vsym.Bound("many series", 100, 300)
	var ids []uint64
	var kind []int
	add := func(id uint64, k int) {
		ids, kind = append(ids, id), append(kind, k)
		p.Add(id, vSeries[k])
	}
	up := vsym.Choice("ascending", 2) == 1
	for i := 0; i < n; i++ {
		if up {
			add(uint64(10*i), i%3)
		} else {
			add(uint64(10*(n-i)), i%3)
		}
	}
	id := vsym.Uint64("id")
	vsym.Assume(vsym.Or(id%10 == 7, id > uint64(10*n)))
	add(id, vsym.Choice("labels", 3))
	del := map[uint64]struct{}{}
	gone := make([]bool, len(ids))
	which := vsym.Choice("deleted", 5)
	for i := range ids {
		gone[i] = []bool{false, i%7 == 0, i != 50, i == len(ids)-1, true}[which]
		if gone[i] {
			del[ids[i]] = struct{}{}
		}
	}
	p.Delete(del)
	got := vIDsMany(p.All(), n+1)
	in := map[uint64]bool{}
	for i, g := range got {
		vsym.Assert(i == 0 || got[i-1] < g, "all: ascending")
		in[g] = true
	}
	left := 0
	for i := range ids {
		vsym.Assert(in[ids[i]] == !gone[i], "all: exactly what is left")
		left += vsym.B2I(!gone[i])
	}
	vsym.Assert(len(got) == left, "all: nothing else")
	got = vIDsMany(p.Get("a", "x"), n+1)
	left = 0
	in = map[uint64]bool{}
	for i, g := range got {
		vsym.Assert(i == 0 || got[i-1] < g, "label pair: ascending")
		in[g] = true
	}
	for i := range ids {
		want := !gone[i] && kind[i] == 0
		vsym.Assert(in[ids[i]] == want, "label pair: exactly the series with the label")
		left += vsym.B2I(want)
	}
	vsym.Assert(len(got) == left, "label pair: nothing else")
	vsym.Reach("deleted")
}
