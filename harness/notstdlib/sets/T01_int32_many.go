package sets

import (
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VT01_Int32Many", VT01_Int32Many)
}

func vManyInt32(i int) int32 { return int32(i) - 40 }

// Large sets, one of whose elements is any value.
func VT01_Int32Many() {
	n := vsym.Bound("many elements", 100, 1000)
	a, b := NewInt32(), NewInt32()
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			a.Insert(vManyInt32(i))
		}
		if i%3 == 0 {
			b.Insert(vManyInt32(i))
		}
	}
	var l, m []int32
	for i := 0; i < n; i++ {
		l, m = append(l, vManyInt32(n-1-i)), append(m, vManyInt32(i))
	}
	all := NewInt32(append(l, m...)...)
	vsym.Assert(all.Len() == n, "each element once")
	x := int32(vsym.IntRange("x", -1<<31, 1<<31-1))
	vsym.Assume(x < vManyInt32(0) || x > vManyInt32(n-1))
	a.Insert(x)
	u, d, c := a.Union(b), a.Difference(b), a.Intersection(b)
	for i := 0; i < n; i++ {
		e := vManyInt32(i)
		vsym.Assert(u.Has(e) == (i%2 == 0 || i%3 == 0), "union")
		vsym.Assert(d.Has(e) == (i%2 == 0 && i%3 != 0), "difference")
		vsym.Assert(c.Has(e) == (i%6 == 0), "intersection")
	}
	vsym.Assert(u.Len() == (n+1)/2+(n+2)/3-(n+5)/6+1, "union: nothing else")
	vsym.Assert(u.Has(x) && d.Has(x) && !c.Has(x) && !all.Has(x), "the odd one")
	vsym.Assert(u.IsSuperset(a) && u.IsSuperset(b) && !all.IsSuperset(a) && all.IsSuperset(b), "superset")
	vsym.Assert(!a.Equal(u) && u.Equal(b.Union(a)), "equal")
	vsym.Assert(all.HasAll(m...) && !b.HasAll(m...) && b.HasAny(m...), "has all, has any")
	vsym.Assert(!d.Difference(NewInt32(x)).HasAny(b.List()...), "difference and set are apart")
	k := all.List()
	vsym.Assert(len(k) == n && len(all.UnsortedList()) == n, "all listed")
	for i := 1; i < n; i++ {
		vsym.Assert(k[i-1] < k[i], "listed in ascending order, each once")
	}
	all.Delete(m[1:]...)
	vsym.Assert(all.Len() == 1 && all.Has(m[0]), "deleted")
	for i := u.Len(); i > 0; i-- {
		e, ok := u.PopAny()
		vsym.Assert(ok && !u.Has(e) && u.Len() == i-1 && (a.Has(e) || b.Has(e)), "taken out")
	}
	vsym.Reach("combined")
}
