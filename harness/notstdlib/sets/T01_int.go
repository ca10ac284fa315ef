package sets

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VT01_IntAlgebra", VT01_IntAlgebra)
	vsym.Register("VT01_IntList", VT01_IntList)
}

func vInt(name string) int { return vsym.Int(name) }

func vInInt(x int, l []int) bool {
	r := false
	for _, e := range l {
		r = vsym.Or(r, x == e)
	}
	return r
}

func vInts(name string, n int) []int {
	var l []int
	for i, k := 0, vsym.Choice(name+" elements", n+1); i < k; i++ {
		l = append(l, vInt(name))
	}
	return l
}

// vTouchInt changes a result, which must not change what it was made of.
func vTouchInt(r Int, x int) {
	if r.Has(x) {
		r.Delete(x)
	} else {
		r.Insert(x)
	}
}

// Any two sets and any value: what is in their combinations.
func VT01_IntAlgebra() {
	la := vInts("a", vsym.Bound("elements of the first set", 3, 3))
	lb := vInts("b", vsym.Bound("elements of the second set", 3, 4))
	x := vInt("x")
	a, b := NewInt(la...), NewInt(lb...)
	ina, inb := vInInt(x, la), vInInt(x, lb)
	switch vsym.Choice("operation", 8) {
	case 0:
		r := a.Union(b)
		vsym.Assert(r.Has(x) == vsym.Or(ina, inb), "union")
		vTouchInt(r, x)
	case 1:
		r := a.Intersection(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, inb), "intersection")
		vTouchInt(r, x)
	case 2:
		r := a.Difference(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, !inb), "difference")
		vTouchInt(r, x)
	case 3:
		sup, sub := true, true
		for _, e := range lb {
			sup = vsym.And(sup, vInInt(e, la))
		}
		for _, e := range la {
			sub = vsym.And(sub, vInInt(e, lb))
		}
		vsym.Assert(a.IsSuperset(b) == sup, "superset")
		vsym.Assert(a.Equal(b) == vsym.And(sup, sub), "equal")
	case 4:
		all, any := true, false
		for _, e := range lb {
			all = vsym.And(all, vInInt(e, la))
			any = vsym.Or(any, vInInt(e, la))
		}
		vsym.Assert(a.HasAll(lb...) == all, "has all")
		vsym.Assert(a.HasAny(lb...) == any, "has any")
	case 5:
		a.Insert(lb...)
		vsym.Assert(a.Has(x) == vsym.Or(ina, inb), "insert")
		vsym.Reach("combined")
		return
	case 6:
		a.Delete(lb...)
		vsym.Assert(a.Has(x) == vsym.And(ina, !inb), "delete")
		vsym.Reach("combined")
		return
	case 7:
		m := map[int]bool{}
		for _, e := range la {
			m[e] = false
		}
		vsym.Assert(IntKeySet(m).Equal(a), "key set")
	}
	vsym.Assert(vsym.And(a.Has(x) == ina, b.Has(x) == inb), "the sets themselves are unchanged")
	vsym.Reach("combined")
}

// Any set listed and taken apart.
func VT01_IntList() {
	la := vInts("a", vsym.Bound("elements", 4, 5))
	x := vInt("x")
	a := NewInt(la...)
	l := a.List()
	for i := 1; i < len(l); i++ {
		vsym.Assert(l[i-1] < l[i], "listed in ascending order, each once")
	}
	vsym.Assert(vInInt(x, l) == vInInt(x, la), "listed are exactly the members")
	u := a.UnsortedList()
	vsym.Assert(len(u) == len(l) && a.Len() == len(l), "as many as members")
	vsym.Assert(vInInt(x, u) == vInInt(x, la), "listed are exactly the members")
	n := len(l)
	for i := 0; i < n; i++ {
		e, ok := a.PopAny()
		vsym.Assert(ok && vInInt(e, l) && !a.Has(e) && a.Len() == n-1-i, "taken out")
	}
	_, ok := a.PopAny()
	vsym.Assert(!ok, "nothing left")
	vsym.Reach("listed")
}
