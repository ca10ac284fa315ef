package sets

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VT01_StringAlgebra", VT01_StringAlgebra)
	vsym.Register("VT01_StringList", VT01_StringList)
}

func vString(name string) string { return vsym.String(name, vsym.Choice("length", 2)) }

func vInString(x string, l []string) bool {
	r := false
	for _, e := range l {
		r = vsym.Or(r, x == e)
	}
	return r
}

func vStrings(name string, n int) []string {
	var l []string
	for i, k := 0, vsym.Choice(name+" elements", n+1); i < k; i++ {
		l = append(l, vString(name))
	}
	return l
}

// vTouchString changes a result, which must not change what it was made of.
func vTouchString(r String, x string) {
	if r.Has(x) {
		r.Delete(x)
	} else {
		r.Insert(x)
	}
}

// Any two sets and any value: what is in their combinations.
func VT01_StringAlgebra() {
	la := vStrings("a", vsym.Bound("elements of the first set", 3, 3))
	lb := vStrings("b", vsym.Bound("elements of the second set", 3, 4))
	x := vString("x")
	a, b := NewString(la...), NewString(lb...)
	ina, inb := vInString(x, la), vInString(x, lb)
	switch vsym.Choice("operation", 8) {
	case 0:
		r := a.Union(b)
		vsym.Assert(r.Has(x) == vsym.Or(ina, inb), "union")
		vTouchString(r, x)
	case 1:
		r := a.Intersection(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, inb), "intersection")
		vTouchString(r, x)
	case 2:
		r := a.Difference(b)
		vsym.Assert(r.Has(x) == vsym.And(ina, !inb), "difference")
		vTouchString(r, x)
	case 3:
		sup, sub := true, true
		for _, e := range lb {
			sup = vsym.And(sup, vInString(e, la))
		}
		for _, e := range la {
			sub = vsym.And(sub, vInString(e, lb))
		}
		vsym.Assert(a.IsSuperset(b) == sup, "superset")
		vsym.Assert(a.Equal(b) == vsym.And(sup, sub), "equal")
	case 4:
		all, any := true, false
		for _, e := range lb {
			all = vsym.And(all, vInString(e, la))
			any = vsym.Or(any, vInString(e, la))
		}
		vsym.Assert(a.HasAll(lb...) == all, "has all")
		vsym.Assert(a.HasAny(lb...) == any, "has any")
	case 5:
		a.Insert(lb...)
		vsym.Assert(a.Has(x) == vsym.Or(ina, inb), "insert")
		vsym.Reach("combined")
		return
	case 6:
		a.Delete(lb...)
		vsym.Assert(a.Has(x) == vsym.And(ina, !inb), "delete")
		vsym.Reach("combined")
		return
	case 7:
		m := map[string]bool{}
		for _, e := range la {
			m[e] = false
		}
		vsym.Assert(StringKeySet(m).Equal(a), "key set")
	}
	vsym.Assert(vsym.And(a.Has(x) == ina, b.Has(x) == inb), "the sets themselves are unchanged")
	vsym.Reach("combined")
}

// Any set listed and taken apart.
func VT01_StringList() {
	la := vStrings("a", vsym.Bound("elements", 4, 5))
	x := vString("x")
	a := NewString(la...)
	l := a.List()
	for i := 1; i < len(l); i++ {
		vsym.Assert(l[i-1] < l[i], "listed in ascending order, each once")
	}
	vsym.Assert(vInString(x, l) == vInString(x, la), "listed are exactly the members")
	u := a.UnsortedList()
	vsym.Assert(len(u) == len(l) && a.Len() == len(l), "as many as members")
	vsym.Assert(vInString(x, u) == vInString(x, la), "listed are exactly the members")
	n := len(l)
	for i := 0; i < n; i++ {
		e, ok := a.PopAny()
		vsym.Assert(ok && vInString(e, l) && !a.Has(e) && a.Len() == n-1-i, "taken out")
	}
	_, ok := a.PopAny()
	vsym.Assert(!ok, "nothing left")
	vsym.Reach("listed")
}
