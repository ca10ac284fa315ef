package sets

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VT01_Int32Algebra", VT01_Int32Algebra)
	vsym.Register("VT01_Int32List", VT01_Int32List)
}

func vInt32(name string) int32 { return vsym.Int32(name) }

func vInInt32(x int32, l []int32) bool {
	r := false
	for _, e := range l {
		r = vsym.Or(r, x == e)
	}
	return r
}

func vInt32s(name string, n int) []int32 {
	var l []int32
	for i, k := 0, vsym.Choice(name+" elements", n+1); i < k; i++ {
		l = append(l, vInt32(name))
	}
	return l
}

// vTouchInt32 changes a result, which must not change what it was made of.
func vTouchInt32(r Int32, x int32) {
	if r.Has(x) {
		r.Delete(x)
	} else {
		r.Insert(x)
	}
}

// Any two sets and any value: what is in their combinations.
func VT01_Int32Algebra() {
	la := vInt32s("a", vsym.Bound("elements of the first set", 3, 3))
	lb := vInt32s("b", vsym.Bound("elements of the second set", 3, 4))
	x := vInt32("x")
	a, b := NewInt32(la...), NewInt32(lb...)
	ina, inb := vInInt32(x, la), vInInt32(x, lb)
	switch vsym.Choice("operation", 8) {
	case 0:
		r := a.Union(b)
		vsym.Assert(r.Has(x) == vsym.Or(ina, inb), "union")
		vTouchInt32(r, x)
	case 1:
		r := a.Intersection(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, inb), "intersection")
		vTouchInt32(r, x)
	case 2:
		r := a.Difference(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, !inb), "difference")
		vTouchInt32(r, x)
	case 3:
		sup, sub := true, true
		for _, e := range lb {
			sup = vsym.And(sup, vInInt32(e, la))
		}
		for _, e := range la {
			sub = vsym.And(sub, vInInt32(e, lb))
		}
		vsym.Assert(a.IsSuperset(b) == sup, "superset")
		vsym.Assert(a.Equal(b) == vsym.And(sup, sub), "equal")
	case 4:
		all, any := true, false
		for _, e := range lb {
			all = vsym.And(all, vInInt32(e, la))
			any = vsym.Or(any, vInInt32(e, la))
		}
		vsym.Assert(a.HasAll(lb...) == all, "has all")
		vsym.Assert(a.HasAny(lb...) == any, "has any")
	case 5:
		a.Insert(lb...)
		vsym.Assert(a.Has(x) == vsym.Or(ina, inb), "insert")
		vsym.Reach("combined")
		return
	case 6:
		a.Delete(lb...)
		vsym.Assert(a.Has(x) == vsym.And(ina, !inb), "delete")
		vsym.Reach("combined")
		return
	case 7:
		m := map[int32]bool{}
		for _, e := range la {
			m[e] = false
		}
		vsym.Assert(Int32KeySet(m).Equal(a), "key set")
	}
	vsym.Assert(vsym.And(a.Has(x) == ina, b.Has(x) == inb), "the sets themselves are unchanged")
	vsym.Reach("combined")
}

// Any set listed and taken apart.
func VT01_Int32List() {
	la := vInt32s("a", vsym.Bound("elements", 4, 5))
	x := vInt32("x")
	a := NewInt32(la...)
	l := a.List()
	for i := 1; i < len(l); i++ {
		vsym.Assert(l[i-1] < l[i], "listed in ascending order, each once")
	}
	vsym.Assert(vInInt32(x, l) == vInInt32(x, la), "listed are exactly the members")
	u := a.UnsortedList()
	vsym.Assert(len(u) == len(l) && a.Len() == len(l), "as many as members")
	vsym.Assert(vInInt32(x, u) == vInInt32(x, la), "listed are exactly the members")
	n := len(l)
	for i := 0; i < n; i++ {
		e, ok := a.PopAny()
		vsym.Assert(ok && vInInt32(e, l) && !a.Has(e) && a.Len() == n-1-i, "taken out")
	}
	_, ok := a.PopAny()
	vsym.Assert(!ok, "nothing left")
	vsym.Reach("listed")
}
