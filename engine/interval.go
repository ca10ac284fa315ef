package main

import "math/bits"

// Signed intervals of bit-vector terms. They fold comparisons and let the
// printer emit every term at the smallest width that holds its values, which
// keeps 64-bit Go arithmetic over small bounded inputs within the solver's
// reach. The intervals are unconditional: they follow from declared variable
// ranges (which the printer asserts with the declaration) and the operations.

func fullRange(s Sort) (int64, int64) {
	if s >= 64 {
		return -1 << 63, 1<<63 - 1
	}
	return -1 << (s - 1), 1<<(s-1) - 1
}

func (t *Term) rng() (int64, int64) {
	if t.op == OConst {
		v := sext64(t.val, t.sort)
		return v, v
	}
	return t.lo, t.hi
}

func swidth(lo, hi int64) int {
	w := 1
	f := func(v int64) {
		if v < 0 {
			v = ^v
		}
		if n := bits.Len64(uint64(v)) + 1; n > w {
			w = n
		}
	}
	f(lo)
	f(hi)
	return w
}

// width is the number of bits the term is emitted with.
func (t *Term) width() int {
	lo, hi := t.rng()
	w := swidth(lo, hi)
	if w > int(t.sort) {
		w = int(t.sort)
	}
	return w
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	if a == -1<<63 || b == -1<<63 {
		return 0, false
	}
	p := a * b
	if p/b != a {
		return 0, false
	}
	return p, true
}
func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (c > a) == (b > 0) {
		return c, true
	}
	return 0, false
}

func abs64(a int64) (int64, bool) {
	if a == -1<<63 {
		return 0, false
	}
	if a < 0 {
		return -a, true
	}
	return a, true
}

func (t *Term) computeRange() {
	flo, fhi := fullRange(t.sort)
	t.lo, t.hi = flo, fhi
	set := func(lo, hi int64) {
		if lo >= flo && hi <= fhi && lo <= hi {
			t.lo, t.hi = lo, hi
		}
	}
	var al, ah, bl, bh int64
	if t.a != nil && t.a.sort != SBool && t.a.sort != SF64 {
		al, ah = t.a.rng()
	}
	if t.b != nil && t.b.sort != SBool && t.b.sort != SF64 {
		bl, bh = t.b.rng()
	}
	switch t.op {
	case OAdd:
		l, ok1 := addOv(al, bl)
		h, ok2 := addOv(ah, bh)
		if ok1 && ok2 {
			set(l, h)
		}
	case OSub:
		if bl != -1<<63 && bh != -1<<63 {
			l, ok1 := addOv(al, -bh)
			h, ok2 := addOv(ah, -bl)
			if ok1 && ok2 {
				set(l, h)
			}
		}
	case ONeg:
		if al != -1<<63 {
			set(-ah, -al)
		}
	case OMul:
		ok := true
		var lo, hi int64
		first := true
		for _, x := range []int64{al, ah} {
			for _, y := range []int64{bl, bh} {
				p, o := mulOv(x, y)
				ok = ok && o
				if first || p < lo {
					lo = p
				}
				if first || p > hi {
					hi = p
				}
				first = false
			}
		}
		if ok {
			set(lo, hi)
		}
	case OSdiv:
		m1, o1 := abs64(al)
		m2, o2 := abs64(ah)
		if !o1 || !o2 {
			return
		}
		m := max(m1, m2)
		zero := bl <= 0 && bh >= 0
		if al >= 0 && bl >= 0 {
			d := max(bl, 1)
			lo, hi := int64(0), ah/d
			if bh > 0 {
				lo = al / bh
			}
			if zero {
				lo = min(lo, -1)
				hi = max(hi, 1)
			}
			set(lo, hi)
			return
		}
		if bl > 0 {
			// the quotient moves towards zero
			set(min(al/bl, al/bh, 0), max(ah/bl, ah/bh, 0))
			return
		}
		set(min(-m, -1), max(m, 1))
	case OSrem:
		m1, o1 := abs64(al)
		m2, o2 := abs64(ah)
		n1, o3 := abs64(bl)
		n2, o4 := abs64(bh)
		if !o1 || !o2 || !o3 || !o4 {
			return
		}
		lim := max(m1, m2)
		if !(bl <= 0 && bh >= 0) {
			lim = min(lim, max(n1, n2)-1)
		}
		lo, hi := -lim, lim
		if al >= 0 {
			lo = 0
		}
		if ah <= 0 {
			hi = 0
		}
		set(lo, hi)
	case OUdiv:
		if al >= 0 && bl >= 0 {
			lo, hi := int64(0), ah
			if bl > 0 {
				hi = ah / bl
			} else {
				lo = -1
			}
			set(lo, hi)
		}
	case OUrem:
		if al >= 0 && bl >= 0 {
			hi := ah
			if bl > 0 {
				hi = min(hi, bh-1)
			}
			set(0, hi)
		}
	case OBvAnd:
		switch {
		case al >= 0 && bl >= 0:
			set(0, min(ah, bh))
		case al >= 0:
			set(0, ah)
		case bl >= 0:
			set(0, bh)
		default:
			w := max(swidth(al, ah), swidth(bl, bh))
			set(fullRange(Sort(w)))
		}
	case OBvOr, OBvXor:
		w := max(swidth(al, ah), swidth(bl, bh))
		lo, hi := fullRange(Sort(w))
		if al >= 0 && bl >= 0 {
			lo = 0
		}
		set(lo, hi)
	case OBvNot:
		set(^ah, ^al)
	case OShl:
		if t.b.op == OConst && t.b.val < 62 {
			k := int64(1) << t.b.val
			l, o1 := mulOv(al, k)
			h, o2 := mulOv(ah, k)
			if o1 && o2 {
				set(l, h)
			}
		}
	case OLshr:
		if al >= 0 {
			if t.b.op == OConst && t.b.val < 64 {
				set(al>>t.b.val, ah>>t.b.val)
			} else {
				set(0, ah)
			}
		}
	case OAshr:
		if t.b.op == OConst && t.b.val < 64 {
			set(al>>t.b.val, ah>>t.b.val)
		} else {
			set(min(al, 0), max(ah, 0))
		}
	case OZext:
		if al >= 0 {
			set(al, ah)
		} else {
			set(0, int64(mask(^uint64(0), t.a.sort)))
		}
	case OSext:
		set(al, ah)
	case OTrunc:
		set(al, ah) // kept only when it fits
	case OIte:
		cl, ch := t.c.rng()
		set(min(bl, cl), max(bh, ch))
	}
}
