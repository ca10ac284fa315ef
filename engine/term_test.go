package main

import (
	"math/rand"
	"testing"
	"time"
)

// The printed SMT form of a random term must agree with the evaluator (whose
// operations are Go's own).
func TestTermPrinter(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	s := Solver{timeout: 20 * time.Second}
	defer s.Close()
	for round := 0; round < 300; round++ {
		b := NewBuilder()
		s.NewPath()
		for _, v := range b.vars {
			_ = v
		}
		var pool [65][]*Term
		var bools []*Term
		for i := 0; i < 4; i++ {
			for _, w := range []Sort{8, 16, 32, 64} {
				lo, hi := fullRange(w)
				if r.Intn(2) == 0 {
					x, y := r.Int63n(200)-100, r.Int63n(200)-100
					lo, hi = max(lo, min(x, y)), min(hi, max(x, y))
				}
				pool[w] = append(pool[w], b.NewVarIn(w, "x", lo, hi))
			}
		}
		m := Model{}
		for _, v := range b.vars {
			span := uint64(v.hi-v.lo) + 1
			x := r.Uint64()
			if span != 0 {
				x %= span
			}
			m = append(m, mask(uint64(v.lo)+x, v.sort))
		}
		pick := func(w Sort) *Term {
			if r.Intn(4) == 0 {
				return BV(uint64(r.Int63n(20)-6), w)
			}
			return pool[w][r.Intn(len(pool[w]))]
		}
		ws := []Sort{8, 16, 32, 64}
		for i := 0; i < 40; i++ {
			w := ws[r.Intn(4)]
			var n *Term
			switch k := r.Intn(20); {
			case k < 12:
				ops := []Op{OAdd, OSub, OMul, OUdiv, OUrem, OSdiv, OSrem, OBvAnd, OBvOr, OBvXor, OShl, OLshr, OAshr}
				n = b.Bin(ops[r.Intn(len(ops))], pick(w), pick(w))
			case k == 12:
				n = b.Neg(pick(w))
			case k == 13:
				n = b.BvNot(pick(w))
			case k == 14:
				v := ws[r.Intn(4)]
				x := pick(v)
				if v < w {
					n = b.Zext(x, w)
				} else {
					n = b.Trunc(x, w)
				}
			case k == 15:
				v := ws[r.Intn(4)]
				x := pick(v)
				if v < w {
					n = b.Sext(x, w)
				} else {
					n = b.Trunc(x, w)
				}
			case k == 16 && len(bools) > 0:
				n = b.Ite(bools[r.Intn(len(bools))], pick(w), pick(w))
			default:
				ops := []Op{OUlt, OUle, OSlt, OSle}
				var c *Term
				if r.Intn(4) == 0 {
					c = b.Eq(pick(w), pick(w))
				} else {
					c = b.Cmp(ops[r.Intn(4)], pick(w), pick(w))
				}
				if r.Intn(2) == 0 {
					c = b.Not(c)
				}
				bools = append(bools, c)
				continue
			}
			pool[w] = append(pool[w], n)
		}
		evalEpochCtr++
		ev := Evaluator{m: m, epoch: evalEpochCtr}
		bad := FalseT
		for _, w := range ws {
			for _, x := range pool[w] {
				v := ev.Eval(x)
				if lo, hi := x.rng(); sext64(v, w) < lo || sext64(v, w) > hi {
					t.Fatalf("round %d: %s = %d outside [%d,%d]", round, x, sext64(v, w), lo, hi)
				}
				if x.op != OVar && x.op != OConst {
					// compare without letting the builder fold
					bad = b.Or(bad, b.mk(ONot, SBool, b.mk(OEq, SBool, x, BV(v, w), nil), nil, nil))
				}
			}
		}
		for _, c := range bools {
			v := ev.Eval(c) == 1
			bad = b.Or(bad, b.mk(ONot, SBool, b.mk(OEq, SBool, c, BoolT(v), nil), nil, nil))
		}
		for i, v := range b.vars {
			s.Assert(b.mk(OEq, SBool, v, BV(m[i], v.sort), nil))
		}
		if bad == FalseT {
			continue
		}
		if res, _ := s.Check(bad, b.vars); res != Unsat {
			t.Fatalf("round %d: solver %v", round, res)
		}
	}
}
