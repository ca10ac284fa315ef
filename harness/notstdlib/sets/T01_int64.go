package sets

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VT01_Int64Algebra", VT01_Int64Algebra)
	vsym.Register("VT01_Int64List", VT01_Int64List)
}

func vInt64(name string) int64 { return vsym.Int64(name) }

func vInInt64(x int64, l []int64) bool {
	r := false
	for _, e := range l {
		r = vsym.Or(r, x == e)
	}
	return r
}

func vInt64s(name string, n int) []int64 {
	var l []int64
	for i, k := 0, vsym.Choice(name+" elements", n+1); i < k; i++ {
		l = append(l, vInt64(name))
	}
	return l
}

// vTouchInt64 changes a result, which must not change what it was made of.
func vTouchInt64(r Int64, x int64) {
	if r.Has(x) {
		r.Delete(x)
	} else {
		r.Insert(x)
	}
}

// Any two sets and any value: what is in their combinations.
func VT01_Int64Algebra() {
	la := vInt64s("a", vsym.Bound("elements of the first set", 3, 3))
	lb := vInt64s("b", vsym.Bound("elements of the second set", 3, 4))
	x := vInt64("x")
	a, b := NewInt64(la...), NewInt64(lb...)
	ina, inb := vInInt64(x, la), vInInt64(x, lb)
	switch vsym.Choice("operation", 8) {
	case 0:
		r := a.Union(b)
		vsym.Assert(r.Has(x) == vsym.Or(ina, inb), "union")
		vTouchInt64(r, x)
	case 1:
		r := a.Intersection(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, inb), "intersection")
		vTouchInt64(r, x)
	case 2:
		r := a.Difference(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, !inb), "difference")
		vTouchInt64(r, x)
	case 3:
		sup, sub := true, true
		for _, e := range lb {
			sup = vsym.And(sup, vInInt64(e, la))
		}
		for _, e := range la {
			sub = vsym.And(sub, vInInt64(e, lb))
		}
		vsym.Assert(a.IsSuperset(b) == sup, "superset")
		vsym.Assert(a.Equal(b) == vsym.And(sup, sub), "equal")
	case 4:
		all, any := true, false
		for _, e := range lb {
			all = vsym.And(all, vInInt64(e, la))
			any = vsym.Or(any, vInInt64(e, la))
		}
		vsym.Assert(a.HasAll(lb...) == all, "has all")
		vsym.Assert(a.HasAny(lb...) == any, "has any")
	case 5:
		a.Insert(lb...)
		vsym.Assert(a.Has(x) == vsym.Or(ina, inb), "insert")
		vsym.Reach("combined")
		return
	case 6:
		a.Delete(lb...)
		vsym.Assert(a.Has(x) == vsym.And(ina, !inb), "delete")
		vsym.Reach("combined")
		return
	case 7:
		m := map[int64]bool{}
		for _, e := range la {
			m[e] = false
		}
		vsym.Assert(Int64KeySet(m).Equal(a), "key set")
	}
	vsym.Assert(vsym.And(a.Has(x) == ina, b.Has(x) == inb), "the sets themselves are unchanged")
	vsym.Reach("combined")
}

// Any set listed and taken apart.
func VT01_Int64List() {
	la := vInt64s("a", vsym.Bound("elements", 4, 5))
	x := vInt64("x")
	a := NewInt64(la...)
	l := a.List()
	for i := 1; i < len(l); i++ {
		vsym.Assert(l[i-1] < l[i], "listed in ascending order, each once")
	}
	vsym.Assert(vInInt64(x, l) == vInInt64(x, la), "listed are exactly the members")
	u := a.UnsortedList()
	vsym.Assert(len(u) == len(l) && a.Len() == len(l), "as many as members")
	vsym.Assert(vInInt64(x, u) == vInInt64(x, la), "listed are exactly the members")
	n := len(l)
	for i := 0; i < n; i++ {
		e, ok := a.PopAny()
		vsym.Assert(ok && vInInt64(e, l) && !a.Has(e) && a.Len() == n-1-i, "taken out")
	}
	_, ok := a.PopAny()
	vsym.Assert(!ok, "nothing left")
	vsym.Reach("listed")
}
