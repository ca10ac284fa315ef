package prom

import (
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/tsdb/index"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VP01_postings", VP01_postings)
	vsym.Register("VP01_unordered", VP01_unordered)
}

func vIDs(p index.Postings) []uint64 { return vIDsMany(p, 50) }

func vIDsMany(p index.Postings, most int) []uint64 {
	var out []uint64
	for p.Next() {
		out = append(out, p.At())
		if len(out) > most {
			vsym.Fail("postings do not end")
		}
	}
	vsym.Assert(p.Err() == nil, "no error")
	return out
}

func vCheckIDs(got, ids []uint64, in []bool, msg string) {
	for i := 1; i < len(got); i++ {
		vsym.Assert(got[i-1] < got[i], msg+": ascending")
	}
	n := 0
	for i := range ids {
		here := false
		for _, g := range got {
			here = vsym.Or(here, g == ids[i])
		}
		vsym.Assert(here == in[i], msg+": exactly the series with the label")
		n += vsym.B2I(in[i])
	}
	vsym.Assert(len(got) == n, msg+": nothing else")
}

func vFill(p *memPostings, n int) (ids []uint64, kind []int) {
	for i := 0; i < n; i++ {
		id := vsym.Uint64("id")
		for _, o := range ids {
			vsym.Assume(id != o)
		}
		k := vsym.Choice("labels", 3)
		ids, kind = append(ids, id), append(kind, k)
		p.Add(id, vSeries[k])
	}
	return
}

func vCheckAll(p *memPostings, ids []uint64, kind []int, gone []bool) {
	probe := []labels.Label{{Name: "__name__", Value: "m"}, {Name: "a", Value: "x"}, {Name: "b", Value: "x"}, {Name: "zz", Value: "x"}}
	in := make([]bool, len(ids))
	for _, l := range probe {
		for i := range ids {
			in[i] = vsym.And(vSeries[kind[i]].Get(l.Name) == l.Value, !gone[i])
		}
		vCheckIDs(vIDs(p.Get(l.Name, l.Value)), ids, in, "label pair")
	}
	left := false
	for i := range ids {
		in[i] = !gone[i]
		left = vsym.Or(left, in[i])
	}
	vCheckIDs(vIDs(p.All()), ids, in, "all")
	keys := p.SortedKeys()
	for i := 1; i < len(keys); i++ {
		vsym.Assert(keys[i-1].Name < keys[i].Name || keys[i-1].Name == keys[i].Name && keys[i-1].Value < keys[i].Value, "keys sorted")
	}
	for i := range ids {
		for _, l := range vSeries[kind[i]] {
			found := false
			for _, k := range keys {
				found = found || k == l
			}
			vsym.Assert(vsym.Implies(in[i], found), "every label pair in use is a key")
		}
	}
	for _, k := range keys {
		vsym.Assert(len(vIDs(p.Get(k.Name, k.Value))) > 0, "no key without series")
	}
}

// Any ids in any order, then any of them deleted.
func VP01_postings() {
	p := NewmemPostings()
	ids, kind := vFill(p, vsym.Bound("series", 3, 4))
	gone := make([]bool, len(ids))
	vCheckAll(p, ids, kind, gone)
	del := map[uint64]struct{}{}
	for i := range ids {
		if vsym.Choice("delete", 2) == 1 {
			gone[i] = true
			del[ids[i]] = struct{}{}
		}
	}
	p.Delete(del)
	vCheckAll(p, ids, kind, gone)
	vsym.Reach("deleted")
}

// Filled without order, ordered later.
func VP01_unordered() {
	vsym.Preempt(vsym.Bound("preemptions while ordering", 0, 1))
	p := NewUnorderedmemPostings()
	var ids []uint64
	var kind []int
	for i := 0; i < 3; i++ {
		id := vsym.Uint64("id")
		for _, o := range ids {
			vsym.Assume(id != o)
		}
		ids, kind = append(ids, id), append(kind, 3-i%2*3)
		p.Add(id, vSeries[kind[i]])
	}
	p.EnsureOrder()
	gone := make([]bool, len(ids))
	vCheckAll(p, ids, kind, gone)
	vsym.Reach("ordered")
}
