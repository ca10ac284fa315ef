package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term                 bool, ints, floats
//	string | *SymStr      strings
//	*Value                pointers
//	*SymPtr               pointer to a slice element at a symbolic index
//	Struct, Array, Slice  aggregates
//	Iface, *Map, *Chan, *Closure, Tuple, *Iter, UPtr
//	Poison                value of an initialiser that could not be run
//	NativeV               a host value handled by intrinsics only
type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type SymStr struct {
	b      []*Term
	sel    *Term
	opts   []string
	opaque bool
	id     int
	desc   string
}

type SymPtr struct {
	base []Value
	idx  *Term
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn      *ssa.Function
	free    []Value
	native  func(it *Interp, fr *frame, args []Value) Value
	builtin *ssa.Builtin
}

type Poison struct{ why string }
type NativeV struct{ v any }
type UPtr struct{ v Value }

type ment struct {
	k, v Value
	dead bool
	loc  Value
}

type Map struct {
	ents  []*ment
	idx   map[string]*ment
	nsym  int
	live  int
	epoch uint64
	loc   Value // race-detection location
	typ   *types.Map
}

type Chan struct {
	buf     []Value
	cap     int
	closed  bool
	waiters []*Proc
	recvq   []*waitOp
	sendq   []*waitOp
	vc      vclock
	bufvc   []vclock
	slots   []vclock // per buffer slot: when it was last emptied
	nsend   int
	nrecv   int
	timer   *timerSrc
	isTimer bool
}

func (ch *Chan) slot(n int) *vclock {
	if ch.slots == nil {
		ch.slots = make([]vclock, ch.cap)
	}
	return &ch.slots[n%ch.cap]
}

type Iter struct {
	m    *Map
	ents []*ment
	pos  int
	str  Value
	spos int
}

type timerSrc struct {
	period      bool
	fires       int
	stop        bool
	max         int
	next, every int64 // when simulating
}

func nilOf(t types.Type) Value { return zero(t) }

func sortOf(b *types.Basic) (Sort, bool, bool) { // sort, signed, ok
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Float64, types.UntypedFloat, types.Float32:
		return SF64, true, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if s, _, ok := sortOf(u); ok {
			if s == SF64 {
				return F64(0)
			}
			if s == SBool {
				return FalseT
			}
			return BV(0, s)
		}
		if u.Info()&types.IsString != 0 {
			return ""
		}
		if u.Kind() == types.UnsafePointer {
			return UPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = zero(u.At(i).Type())
		}
		return tu
	}
	return Poison{"zero of " + t.String()}
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

func isConcreteStr(v Value) (string, bool) {
	switch s := v.(type) {
	case string:
		return s, true
	case *SymStr:
		if s.b == nil || s.opaque || s.sel != nil {
			return "", false
		}
		buf := make([]byte, len(s.b))
		for i, t := range s.b {
			if !t.isConst() {
				return "", false
			}
			buf[i] = byte(t.val)
		}
		return string(buf), true
	}
	return "", false
}

// mkStr builds a string value from byte terms.
func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.isConst() {
			return &SymStr{b: b}
		}
	}
	buf := make([]byte, len(b))
	for i, t := range b {
		buf[i] = byte(t.val)
	}
	return string(buf)
}

func strBytes(s string) []*Term {
	b := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		b[i] = BV(uint64(s[i]), 8)
	}
	return b
}

// mapKey gives a canonical form for fully concrete keys.
func mapKey(v Value) (string, bool) {
	switch v := v.(type) {
	case string:
		return v, true
	case *Term:
		if !v.isConst() {
			return "", false
		}
		if v.sort == SF64 && fv(v.val) == 0 {
			return "0", true
		}
		return strconv.FormatUint(v.val, 16), true
	case *SymStr:
		return isConcreteStr(v)
	case Struct, Array:
		var vs []Value
		if s, ok := v.(Struct); ok {
			vs = s
		} else {
			vs = v.(Array)
		}
		var sb strings.Builder
		for _, f := range vs {
			k, ok := mapKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(k), k)
		}
		return sb.String(), true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := mapKey(v.v)
		return v.t.String() + "|" + k, ok
	case *Value:
		return fmt.Sprintf("%p", v), true
	case *Chan:
		return fmt.Sprintf("%p", v), true
	case *SymPtr:
		return "", false
	}
	return "", false
}

func describe(v Value) string {
	switch v := v.(type) {
	case *Term:
		return v.String()
	case string:
		return strconv.Quote(v)
	case *SymStr:
		if v.opaque {
			return "<opaque:" + v.desc + ">"
		}
		if v.sel != nil {
			return fmt.Sprintf("choice%v", v.opts)
		}
		return fmt.Sprintf("symstr[%d]", len(v.b))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + describe(v.v) + ")"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + describe(*v)
	case Struct:
		var parts []string
		for i, f := range v {
			if i > 6 {
				parts = append(parts, "…")
				break
			}
			if _, ok := f.(*Value); ok {
				parts = append(parts, "ptr")
				continue
			}
			parts = append(parts, describe(f))
		}
		return "{" + strings.Join(parts, ",") + "}"
	}
	return fmt.Sprintf("%T", v)
}
