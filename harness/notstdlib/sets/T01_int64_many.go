package sets

import (
	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VT01_Int64Many", VT01_Int64Many)
}

func vManyInt64(i int) int64 { return int64(i) - 40 }

// Large sets, one of whose elements is any value.
func VT01_Int64Many() {
	n := vsym.Bound("many elements", 100, 1000)
	a, b := NewInt64(), NewInt64()
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			a.Insert(vManyInt64(i))
		}
		if i%3 == 0 {
			b.Insert(vManyInt64(i))
		}
	}
	var l, m []int64
	for i := 0; i < n; i++ {
		l, m = append(l, vManyInt64(n-1-i)), append(m, vManyInt64(i))
	}
	all := NewInt64(append(l, m...)...)
	vsym.Assert(all.Len() == n, "each element once")
	x := vsym.Int64("x")
	vsym.Assume(x < vManyInt64(0) || x > vManyInt64(n-1))
	a.Insert(x)
	u, d, c := a.Union(b), a.Difference(b), a.Intersection(b)
	for i := 0; i < n; i++ {
		e := vManyInt64(i)
		vsym.Assert(u.Has(e) == (i%2 == 0 || i%3 == 0), "union")
		vsym.Assert(d.Has(e) == (i%2 == 0 && i%3 != 0), "difference")
		vsym.Assert(c.Has(e) == (i%6 == 0), "intersection")
	}
	vsym.Assert(u.Len() == (n+1)/2+(n+2)/3-(n+5)/6+1, "union: nothing else")
	vsym.Assert(u.Has(x) && d.Has(x) && !c.Has(x) && !all.Has(x), "the odd one")
	vsym.Assert(u.IsSuperset(a) && u.IsSuperset(b) && !all.IsSuperset(a) && all.IsSuperset(b), "superset")
	vsym.Assert(!a.Equal(u) && u.Equal(b.Union(a)), "equal")
	vsym.Assert(all.HasAll(m...) && !b.HasAll(m...) && b.HasAny(m...), "has all, has any")
	vsym.Assert(!d.Difference(NewInt64(x)).HasAny(b.List()...), "difference and set are apart")
	k := all.List()
	vsym.Assert(len(k) == n && len(all.UnsortedList()) == n, "all listed")
	for i := 1; i < n; i++ {
		vsym.Assert(k[i-1] < k[i], "listed in ascending order, each once")
	}
	all.Delete(m[1:]...)
	vsym.Assert(all.Len() == 1 && all.Has(m[0]), "deleted")
	for i := u.Len(); i > 0; i-- {
		e, ok := u.PopAny()
		vsym.Assert(ok && !u.Has(e) && u.Len() == i-1 && (a.Has(e) || b.Has(e)), "taken out")
	}
	vsym.Reach("combined")
}
