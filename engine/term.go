package main

// SMT terms: booleans, fixed-width bit vectors and IEEE doubles, hash-consed
// per path, with constant folding, evaluation under a model, and printing to
// SMT-LIB.

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc
	OFFromBits // bv64 -> f64
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFFloor
	OFCeil
	OFTrunc
	OFRne
	OFRna
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OFSame  // smt "=" on floats (bit identity up to NaN)
	OFFromS // signed bv -> f64
	OFFromU // unsigned bv -> f64
	OFToS   // f64 -> signed bv (RTZ, x86 semantics for out of range)
	OFTo32  // round to float32 precision
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv",
	OSrem: "bvsrem", OBvAnd: "bvand", OBvOr: "bvor", OBvXor: "bvxor", OBvNot: "bvnot", ONeg: "bvneg", OShl: "bvshl",
	OLshr: "bvlshr", OAshr: "bvashr",
	OFFromBits: "(_ to_fp 11 53)", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE", OFFloor: "fp.roundToIntegral RTN", OFCeil: "fp.roundToIntegral RTP",
	OFTrunc: "fp.roundToIntegral RTZ", OFRne: "fp.roundToIntegral RNE", OFRna: "fp.roundToIntegral RNA",
	OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OFSame: "=",
	OFFromS: "(_ to_fp 11 53) RNE", OFFromU: "(_ to_fp_unsigned 11 53) RNE",
}

// Sort: 0 = Bool, 1..64 = BV width, 255 = Float64
type Sort uint8

const (
	SBool Sort = 0
	SF64  Sort = 255
)

type Term struct {
	op      Op
	sort    Sort
	a, b, c *Term
	val     uint64 // const value (bool 0/1, bv masked, float bits); var index
	name    string
	id      uint64
	evEpoch uint64
	evVal   uint64
	size    uint32
	defined uint64 // solver scope in which a define-fun exists
	lo, hi  int64  // signed interval (bit vectors only)
}

func (t *Term) isConst() bool { return t.op == OConst }

var smallConst [65][2048]*Term
var TrueT, FalseT *Term

func init() {
	for _, w := range []int{1, 8, 16, 32, 64} {
		for i := range smallConst[w] {
			v := uint64(i) - 512
			if i-512 < 0 {
				v = mask(uint64(int64(i-512)), Sort(w))
			} else if w < 16 && i-512 > 255 {
				continue
			}
			smallConst[w][i] = &Term{op: OConst, sort: Sort(w), val: v}
		}
	}
	TrueT = &Term{op: OConst, sort: SBool, val: 1}
	FalseT = &Term{op: OConst, sort: SBool, val: 0}
}

func mask(v uint64, s Sort) uint64 {
	if s == 64 || s == SF64 {
		return v
	}
	if s == SBool {
		return v & 1
	}
	return v & (1<<uint(s) - 1)
}

func sext64(v uint64, s Sort) int64 {
	if s >= 64 {
		return int64(v)
	}
	sh := 64 - uint(s)
	return int64(v<<sh) >> sh
}

func BV(v uint64, s Sort) *Term {
	v = mask(v, s)
	sv := sext64(v, s)
	if sv >= -512 && sv < 1536 && s <= 64 {
		if c := smallConst[s][sv+512]; c != nil && c.val == v {
			return c
		}
	}
	return &Term{op: OConst, sort: s, val: v}
}
func Int64T(v int64) *Term { return BV(uint64(v), 64) }
func F64(f float64) *Term  { return &Term{op: OConst, sort: SF64, val: math.Float64bits(f)} }
func BoolT(b bool) *Term {
	if b {
		return TrueT
	}
	return FalseT
}

type tkey struct {
	op         Op
	sort       Sort
	a, b, c    *Term
	av, bv, cv uint64
}

// Builder creates terms for one path.
type Builder struct {
	tab    map[tkey]*Term
	nextID uint64
	vars   []*Term
}

func NewBuilder() *Builder { return &Builder{tab: map[tkey]*Term{}} }
func (b *Builder) Reset() {
	if len(b.tab) > 0 {
		b.tab = map[tkey]*Term{}
	}
	b.vars = b.vars[:0:0]
}

func (b *Builder) NewVar(s Sort, name string) *Term {
	b.nextID++
	t := &Term{op: OVar, sort: s, val: uint64(len(b.vars)), name: fmt.Sprintf("v%d_%s", len(b.vars), sanitize(name)), id: b.nextID, size: 1}
	if s != SBool && s != SF64 {
		t.lo, t.hi = fullRange(s)
	}
	b.vars = append(b.vars, t)
	return t
}

// NewVarIn declares a variable whose signed value lies in [lo, hi].
func (b *Builder) NewVarIn(s Sort, name string, lo, hi int64) *Term {
	t := b.NewVar(s, name)
	flo, fhi := fullRange(s)
	t.lo, t.hi = max(lo, flo), min(hi, fhi)
	return t
}

// dflt is the value of a variable no constraint mentions.
func (t *Term) dflt() uint64 {
	if t.sort == SBool || t.sort == SF64 || t.lo <= 0 && t.hi >= 0 {
		return 0
	}
	if t.lo > 0 {
		return mask(uint64(t.lo), t.sort)
	}
	return mask(uint64(t.hi), t.sort)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (b *Builder) mk(op Op, s Sort, x, y, z *Term) *Term {
	k := tkey{op: op, sort: s}
	sz := uint32(1)
	set := func(t *Term) (*Term, uint64) {
		if t == nil {
			return nil, 0
		}
		if t.op == OConst {
			return nil, t.val
		}
		sz += t.size
		return t, uint64(t.sort) | 1<<62
	}
	k.a, k.av = set(x)
	k.b, k.bv = set(y)
	k.c, k.cv = set(z)
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.nextID++
	t := &Term{op: op, sort: s, a: x, b: y, c: z, id: b.nextID, size: sz}
	if s != SBool && s != SF64 {
		t.computeRange()
		if t.lo == t.hi {
			t = BV(uint64(t.lo), s)
		}
	}
	b.tab[k] = t
	return t
}

func sameTerm(x, y *Term) bool {
	return x == y || (x.op == OConst && y.op == OConst && x.val == y.val && x.sort == y.sort)
}

func (b *Builder) Not(x *Term) *Term {
	switch {
	case x.op == OConst:
		return BoolT(x.val == 0)
	case x.op == ONot:
		return x.a
	case x.op == OUlt:
		return b.Cmp(OUle, x.b, x.a)
	case x.op == OUle:
		return b.Cmp(OUlt, x.b, x.a)
	case x.op == OSlt:
		return b.Cmp(OSle, x.b, x.a)
	case x.op == OSle:
		return b.Cmp(OSlt, x.b, x.a)
	}
	return b.mk(ONot, SBool, x, nil, nil)
}
func (b *Builder) And(x, y *Term) *Term {
	if x.op == OConst {
		if x.val == 0 {
			return FalseT
		}
		return y
	}
	if y.op == OConst {
		if y.val == 0 {
			return FalseT
		}
		return x
	}
	if x == y {
		return x
	}
	if x.op == ONot && x.a == y || y.op == ONot && y.a == x {
		return FalseT
	}
	return b.mk(OAnd, SBool, x, y, nil)
}
func (b *Builder) Or(x, y *Term) *Term {
	if x.op == OConst {
		if x.val != 0 {
			return TrueT
		}
		return y
	}
	if y.op == OConst {
		if y.val != 0 {
			return TrueT
		}
		return x
	}
	if x == y {
		return x
	}
	if x.op == ONot && x.a == y || y.op == ONot && y.a == x {
		return TrueT
	}
	return b.mk(OOr, SBool, x, y, nil)
}

func (b *Builder) Ite(c, x, y *Term) *Term {
	if c.op == OConst {
		if c.val != 0 {
			return x
		}
		return y
	}
	if sameTerm(x, y) {
		return x
	}
	if x.sort == SBool {
		if x.op == OConst {
			if x.val != 0 {
				return b.Or(c, y)
			}
			return b.And(b.Not(c), y)
		}
		if y.op == OConst {
			if y.val != 0 {
				return b.Or(b.Not(c), x)
			}
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.a, y, x)
	}
	if x.op == OIte && x.a == c {
		x = x.b
	}
	if y.op == OIte && y.a == c {
		y = y.c
	}
	return b.mk(OIte, x.sort, c, x, y)
}

// iteConstLeaves reports whether t is an ite tree with constant leaves (bounded).
func iteConstLeaves(t *Term, n int) int {
	if t.op == OConst {
		return 1
	}
	if t.op == OIte && n > 0 {
		l := iteConstLeaves(t.b, n-1)
		if l == 0 {
			return 0
		}
		r := iteConstLeaves(t.c, n-1)
		if r == 0 {
			return 0
		}
		return l + r
	}
	return 0
}

func (b *Builder) Eq(x, y *Term) *Term {
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", x.sort, y.sort))
	}
	if x.sort == SF64 {
		return b.FCmp(OFEq, x, y)
	}
	if x == y {
		return TrueT
	}
	if x.op == OConst && y.op == OConst {
		return BoolT(x.val == y.val)
	}
	if x.op == OConst {
		x, y = y, x
	}
	if x.sort == SBool {
		if y.op == OConst {
			if y.val != 0 {
				return x
			}
			return b.Not(x)
		}
		return b.mk(OEq, SBool, x, y, nil)
	}
	if y.op == OConst {
		switch x.op {
		case OAdd:
			if x.b.op == OConst {
				return b.Eq(x.a, BV(y.val-x.b.val, x.sort))
			}
		case OZext:
			if y.val > mask(^uint64(0), x.a.sort) {
				return FalseT
			}
			return b.Eq(x.a, BV(y.val, x.a.sort))
		case OSext:
			if uint64(sext64(mask(y.val, x.a.sort), x.a.sort))&mask(^uint64(0), x.sort) != y.val {
				return FalseT
			}
			return b.Eq(x.a, BV(y.val, x.a.sort))
		case OIte:
			if iteConstLeaves(x, 12) > 0 {
				return b.Ite(x.a, b.Eq(x.b, y), b.Eq(x.c, y))
			}
			if x.b.op == OConst && x.b.val != y.val {
				return b.And(b.Not(x.a), b.Eq(x.c, y))
			}
			if x.c.op == OConst && x.c.val != y.val {
				return b.And(x.a, b.Eq(x.b, y))
			}
		}
	} else if x.id > y.id {
		x, y = y, x
	}
	xl, xh := x.rng()
	yl, yh := y.rng()
	if xh < yl || yh < xl {
		return FalseT
	}
	return b.mk(OEq, SBool, x, y, nil)
}

// urange gives cheap unsigned bounds of a term.
func urange(t *Term, depth int) (uint64, uint64) {
	full := mask(^uint64(0), t.sort)
	if t.op == OConst {
		return t.val, t.val
	}
	if depth <= 0 {
		return 0, full
	}
	switch t.op {
	case OZext:
		return urange(t.a, depth-1)
	case OIte:
		l1, h1 := urange(t.b, depth-1)
		l2, h2 := urange(t.c, depth-1)
		return min(l1, l2), max(h1, h2)
	case OAdd:
		l1, h1 := urange(t.a, depth-1)
		l2, h2 := urange(t.b, depth-1)
		hi, c := bits.Add64(h1, h2, 0)
		if c == 0 && hi <= full {
			return l1 + l2, hi
		}
	case OBvAnd:
		_, h1 := urange(t.a, depth-1)
		_, h2 := urange(t.b, depth-1)
		return 0, min(h1, h2)
	case OUrem:
		if t.b.op == OConst && t.b.val > 0 {
			return 0, t.b.val - 1
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			l, h := urange(t.a, depth-1)
			return l >> t.b.val, h >> t.b.val
		}
	}
	return 0, full
}

func (b *Builder) Cmp(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		var r bool
		switch op {
		case OUlt:
			r = x.val < y.val
		case OUle:
			r = x.val <= y.val
		case OSlt:
			r = sext64(x.val, x.sort) < sext64(y.val, y.sort)
		case OSle:
			r = sext64(x.val, x.sort) <= sext64(y.val, y.sort)
		}
		return BoolT(r)
	}
	if x == y {
		return BoolT(op == OUle || op == OSle)
	}
	xl, xh := x.rng()
	yl, yh := y.rng()
	if op == OSlt || op == OSle || (xl >= 0 && yl >= 0) {
		if op == OSlt || op == OUlt {
			if xh < yl {
				return TrueT
			}
			if xl >= yh {
				return FalseT
			}
		} else {
			if xh <= yl {
				return TrueT
			}
			if xl > yh {
				return FalseT
			}
		}
	}
	lx, hx := urange(x, 6)
	ly, hy := urange(y, 6)
	signBit := uint64(1) << (uint(x.sort) - 1)
	if op == OUlt || op == OUle || (hx < signBit && hy < signBit) {
		strict := op == OUlt || op == OSlt
		if strict {
			if hx < ly {
				return TrueT
			}
			if lx >= hy {
				return FalseT
			}
		} else {
			if hx <= ly {
				return TrueT
			}
			if lx > hy {
				return FalseT
			}
		}
	} else if hx < signBit && lx <= hx && y.op == OConst && y.val >= signBit {
		return FalseT // nonneg < negative
	} else if hy < signBit && x.op == OConst && x.val >= signBit {
		return TrueT
	}
	return b.mk(op, SBool, x, y, nil)
}

func bvFold(op Op, s Sort, x, y uint64) (uint64, bool) {
	switch op {
	case OAdd:
		return mask(x+y, s), true
	case OSub:
		return mask(x-y, s), true
	case OMul:
		return mask(x*y, s), true
	case OUdiv:
		if y == 0 {
			return mask(^uint64(0), s), true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		sx, sy := sext64(x, s), sext64(y, s)
		if sy == 0 {
			if sx < 0 {
				return 1, true
			}
			return mask(^uint64(0), s), true
		}
		if sy == -1 {
			return mask(uint64(-sx), s), true
		}
		return mask(uint64(sx/sy), s), true
	case OSrem:
		sx, sy := sext64(x, s), sext64(y, s)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return mask(uint64(sx%sy), s), true
	case OBvAnd:
		return x & y, true
	case OBvOr:
		return x | y, true
	case OBvXor:
		return x ^ y, true
	case OShl:
		if y >= uint64(s) {
			return 0, true
		}
		return mask(x<<y, s), true
	case OLshr:
		if y >= uint64(s) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(s) {
			y = uint64(s) - 1
		}
		return mask(uint64(sext64(x, s)>>y), s), true
	}
	return 0, false
}

func (b *Builder) Bin(op Op, x, y *Term) *Term {
	if x.sort != y.sort {
		panic(fmt.Sprintf("Bin sort mismatch op %d: %d %d", op, x.sort, y.sort))
	}
	s := x.sort
	if x.op == OConst && y.op == OConst {
		v, _ := bvFold(op, s, x.val, y.val)
		return BV(v, s)
	}
	switch op {
	case OAdd, OMul, OBvAnd, OBvOr, OBvXor:
		if x.op == OConst {
			x, y = y, x
		}
	}
	if y.op == OConst {
		allOnes := mask(^uint64(0), s)
		switch op {
		case OAdd:
			if y.val == 0 {
				return x
			}
			if x.op == OAdd && x.b.op == OConst {
				return b.Bin(OAdd, x.a, BV(x.b.val+y.val, s))
			}
			if x.op == OIte && iteConstLeaves(x, 8) > 0 {
				return b.Ite(x.a, b.Bin(op, x.b, y), b.Bin(op, x.c, y))
			}
		case OSub:
			return b.Bin(OAdd, x, BV(-y.val, s))
		case OMul:
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if bits.OnesCount64(y.val) == 1 {
				return b.Bin(OShl, x, BV(uint64(bits.TrailingZeros64(y.val)), s))
			}
		case OBvAnd:
			if y.val == 0 {
				return y
			}
			if y.val == allOnes {
				return x
			}
		case OBvOr, OBvXor:
			if y.val == 0 {
				return x
			}
			if op == OBvOr && y.val == allOnes {
				return y
			}
		case OShl, OLshr, OAshr:
			if y.val == 0 {
				return x
			}
			if op != OAshr && y.val >= uint64(s) {
				return BV(0, s)
			}
		case OUdiv:
			if y.val == 1 {
				return x
			}
			if y.val != 0 && bits.OnesCount64(y.val) == 1 {
				return b.Bin(OLshr, x, BV(uint64(bits.TrailingZeros64(y.val)), s))
			}
		case OUrem:
			if y.val != 0 && bits.OnesCount64(y.val) == 1 {
				return b.Bin(OBvAnd, x, BV(y.val-1, s))
			}
		case OSdiv:
			if y.val == 1 {
				return x
			}
		}
	}
	if x == y {
		switch op {
		case OSub, OBvXor:
			return BV(0, s)
		case OBvAnd, OBvOr:
			return x
		}
	}
	if op == OSub {
		if x.op == OAdd && sameTerm(x.a, y) {
			return x.b
		}
		if x.op == OAdd && sameTerm(x.b, y) {
			return x.a
		}
	}
	return b.mk(op, s, x, y, nil)
}

func (b *Builder) Neg(x *Term) *Term {
	if x.op == OConst {
		return BV(-x.val, x.sort)
	}
	return b.mk(ONeg, x.sort, x, nil, nil)
}
func (b *Builder) BvNot(x *Term) *Term {
	if x.op == OConst {
		return BV(^x.val, x.sort)
	}
	return b.mk(OBvNot, x.sort, x, nil, nil)
}
func (b *Builder) Zext(x *Term, s Sort) *Term {
	if x.sort == s {
		return x
	}
	if x.op == OConst {
		return BV(x.val, s)
	}
	if x.op == OZext {
		x = x.a
	}
	if x.op == OIte && iteConstLeaves(x, 8) > 0 {
		return b.Ite(x.a, b.Zext(x.b, s), b.Zext(x.c, s))
	}
	return b.mk(OZext, s, x, nil, nil)
}
func (b *Builder) Sext(x *Term, s Sort) *Term {
	if x.sort == s {
		return x
	}
	if x.op == OConst {
		return BV(uint64(sext64(x.val, x.sort)), s)
	}
	if x.op == OIte && iteConstLeaves(x, 8) > 0 {
		return b.Ite(x.a, b.Sext(x.b, s), b.Sext(x.c, s))
	}
	return b.mk(OSext, s, x, nil, nil)
}
func (b *Builder) Trunc(x *Term, s Sort) *Term {
	if x.sort == s {
		return x
	}
	if x.op == OConst {
		return BV(x.val, s)
	}
	if x.op == OZext || x.op == OSext {
		if x.a.sort == s {
			return x.a
		}
		if x.a.sort > s {
			return b.Trunc(x.a, s)
		}
		if x.op == OZext {
			return b.Zext(x.a, s)
		}
		return b.Sext(x.a, s)
	}
	if x.op == OIte && iteConstLeaves(x, 8) > 0 {
		return b.Ite(x.a, b.Trunc(x.b, s), b.Trunc(x.c, s))
	}
	return b.mk(OTrunc, s, x, nil, nil)
}

func (b *Builder) B2BV(x *Term, s Sort) *Term { return b.Ite(x, BV(1, s), BV(0, s)) }

// floats

func fBin(op Op, x, y float64) float64 {
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("fBin")
}
func fUn(op Op, x float64) float64 {
	switch op {
	case OFNeg:
		return -x
	case OFAbs:
		return math.Abs(x)
	case OFSqrt:
		return math.Sqrt(x)
	case OFFloor:
		return math.Floor(x)
	case OFCeil:
		return math.Ceil(x)
	case OFTrunc:
		return math.Trunc(x)
	case OFRne:
		return math.RoundToEven(x)
	case OFRna:
		return math.Round(x)
	case OFTo32:
		return float64(float32(x))
	}
	panic("fUn")
}
func fCmp(op Op, x, y float64) bool {
	switch op {
	case OFEq:
		return x == y
	case OFLt:
		return x < y
	case OFLe:
		return x <= y
	case OFSame:
		return math.Float64bits(x) == math.Float64bits(y) || (x != x && y != y)
	}
	panic("fCmp")
}

func fv(u uint64) float64 { return math.Float64frombits(u) }

func (b *Builder) FBin(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return F64(fBin(op, fv(x.val), fv(y.val)))
	}
	return b.mk(op, SF64, x, y, nil)
}
func (b *Builder) FUn(op Op, x *Term) *Term {
	if x.op == OConst {
		return F64(fUn(op, fv(x.val)))
	}
	if op >= OFFloor && op <= OFRna {
		switch x.op {
		case OFFromS, OFFromU, OFFloor, OFCeil, OFTrunc, OFRne, OFRna:
			return x
		}
	}
	return b.mk(op, SF64, x, nil, nil)
}
func (b *Builder) FCmp(op Op, x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return BoolT(fCmp(op, fv(x.val), fv(y.val)))
	}
	if x == y && (x.op == OFFromS || x.op == OFFromU) {
		return BoolT(op != OFLt)
	}
	// comparisons of exactly-representable integer conversions
	if x.op == OFFromS && y.op == OFFromS && x.a.sort == y.a.sort && x.a.sort <= 32 {
		switch op {
		case OFEq, OFSame:
			return b.Eq(x.a, y.a)
		case OFLt:
			return b.Cmp(OSlt, x.a, y.a)
		case OFLe:
			return b.Cmp(OSle, x.a, y.a)
		}
	}
	return b.mk(op, SBool, x, y, nil)
}
func (b *Builder) FIsNaN(x *Term) *Term {
	if x.op == OConst {
		f := fv(x.val)
		return BoolT(f != f)
	}
	if x.op == OFFromS || x.op == OFFromU {
		return FalseT
	}
	return b.mk(OFIsNaN, SBool, x, nil, nil)
}
func (b *Builder) FIsInf(x *Term) *Term {
	if x.op == OConst {
		return BoolT(math.IsInf(fv(x.val), 0))
	}
	if x.op == OFFromS || x.op == OFFromU {
		return FalseT
	}
	return b.mk(OFIsInf, SBool, x, nil, nil)
}
func (b *Builder) FFromBits(x *Term) *Term {
	if x.op == OConst {
		return &Term{op: OConst, sort: SF64, val: x.val}
	}
	return b.mk(OFFromBits, SF64, x, nil, nil)
}
func (b *Builder) FFromInt(x *Term, signed bool) *Term {
	if x.op == OConst {
		if signed {
			return F64(float64(sext64(x.val, x.sort)))
		}
		return F64(float64(x.val))
	}
	if signed {
		if x.op == OSext {
			x = x.a
		} else if x.op == OZext {
			return b.FFromInt(x.a, false)
		}
		return b.mk(OFFromS, SF64, x, nil, nil)
	}
	if x.op == OZext {
		x = x.a
	}
	return b.mk(OFFromU, SF64, x, nil, nil)
}

func f2s(f float64) uint64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return 1 << 63
	}
	return uint64(int64(f))
}

// FToS converts to a 64-bit signed integer with x86 semantics.
func (b *Builder) FToS(x *Term) *Term {
	if x.op == OConst {
		return BV(f2s(fv(x.val)), 64)
	}
	switch x.op {
	case OFFromS:
		if x.a.sort <= 53 {
			return b.Sext(x.a, 64)
		}
	case OFFromU:
		if x.a.sort <= 53 {
			return b.Zext(x.a, 64)
		}
	case OFTrunc:
		x = x.a
	}
	return b.mk(OFToS, 64, x, nil, nil)
}

// Model assigns var index -> value.
type Model []uint64

var evalEpochCtr uint64

type Evaluator struct {
	m     Model
	epoch uint64
}

func (e *Evaluator) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.evEpoch == e.epoch {
		return t.evVal
	}
	var v uint64
	switch t.op {
	case OVar:
		if int(t.val) < len(e.m) {
			v = mask(e.m[t.val], t.sort)
		} else {
			v = t.dflt()
		}
	case ONot:
		v = 1 - e.Eval(t.a)
	case OAnd:
		v = e.Eval(t.a)
		if v == 1 {
			v = e.Eval(t.b)
		}
	case OOr:
		v = e.Eval(t.a)
		if v == 0 {
			v = e.Eval(t.b)
		}
	case OIte:
		if e.Eval(t.a) == 1 {
			v = e.Eval(t.b)
		} else {
			v = e.Eval(t.c)
		}
	case OEq:
		v = b2u(e.Eval(t.a) == e.Eval(t.b))
	case OUlt:
		v = b2u(e.Eval(t.a) < e.Eval(t.b))
	case OUle:
		v = b2u(e.Eval(t.a) <= e.Eval(t.b))
	case OSlt:
		v = b2u(sext64(e.Eval(t.a), t.a.sort) < sext64(e.Eval(t.b), t.b.sort))
	case OSle:
		v = b2u(sext64(e.Eval(t.a), t.a.sort) <= sext64(e.Eval(t.b), t.b.sort))
	case OBvNot:
		v = mask(^e.Eval(t.a), t.sort)
	case ONeg:
		v = mask(-e.Eval(t.a), t.sort)
	case OZext:
		v = e.Eval(t.a)
	case OSext:
		v = mask(uint64(sext64(e.Eval(t.a), t.a.sort)), t.sort)
	case OTrunc:
		v = mask(e.Eval(t.a), t.sort)
	case OFFromBits:
		v = e.Eval(t.a)
	case OFAdd, OFSub, OFMul, OFDiv:
		v = math.Float64bits(fBin(t.op, fv(e.Eval(t.a)), fv(e.Eval(t.b))))
	case OFNeg, OFAbs, OFSqrt, OFFloor, OFCeil, OFTrunc, OFRne, OFRna, OFTo32:
		v = math.Float64bits(fUn(t.op, fv(e.Eval(t.a))))
	case OFEq, OFLt, OFLe, OFSame:
		v = b2u(fCmp(t.op, fv(e.Eval(t.a)), fv(e.Eval(t.b))))
	case OFIsNaN:
		f := fv(e.Eval(t.a))
		v = b2u(f != f)
	case OFIsInf:
		v = b2u(math.IsInf(fv(e.Eval(t.a)), 0))
	case OFFromS:
		v = math.Float64bits(float64(sext64(e.Eval(t.a), t.a.sort)))
	case OFFromU:
		v = math.Float64bits(float64(e.Eval(t.a)))
	case OFToS:
		v = f2s(fv(e.Eval(t.a)))
	default:
		r, ok := bvFold(t.op, t.sort, e.Eval(t.a), e.Eval(t.b))
		if !ok {
			panic(fmt.Sprintf("eval: op %d", t.op))
		}
		v = r
	}
	t.evEpoch = e.epoch
	t.evVal = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SF64:
		return "Float64"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

func constStr(t *Term) string {
	switch t.sort {
	case SBool:
		if t.val != 0 {
			return "true"
		}
		return "false"
	case SF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	}
	if t.sort%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.sort)/4, t.val)
	}
	return fmt.Sprintf("#b%0*b", int(t.sort), t.val)
}

// String renders small terms for diagnostics.
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "nil"
	}
	if t.op == OConst {
		if t.sort == SF64 {
			return fmt.Sprint(fv(t.val))
		}
		if t.sort == SBool {
			return constStr(t)
		}
		return fmt.Sprint(sext64(t.val, t.sort))
	}
	if t.op == OVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
