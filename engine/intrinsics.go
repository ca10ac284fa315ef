package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const vsymPath = "sigs.k8s.io/instrumentation-tools/zzvsym"

var skipInit = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/runtime/atomic": true, "syscall": true, "os": true, "net": true,
	"internal/godebug": true, "internal/poll": true, "os/signal": true, "crypto/tls": true, "crypto/x509": true,
	vsymPath: true, "log": false, "testing": true, "internal/testlog": true, "os/exec": true, "net/http": true,
	"golang.org/x/net/http2": true, "github.com/prometheus/client_golang/prometheus": true,
	"github.com/aws/aws-sdk-go/aws/endpoints": true, "k8s.io/klog/v2": true, "k8s.io/klog": true,
	"google.golang.org/protobuf/internal/impl": true, "internal/sysinfo": true,
}

var noopPkgs = map[string]bool{
	"k8s.io/klog/v2": true, "k8s.io/klog": true, "log": true, "internal/race": true, "internal/godebug": true,
	"internal/msan": true, "internal/asan": true, "log/internal": true, "runtime/trace": true,
}

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vsymPath && fn.Name() != "init" {
		if fn.Parent() == nil {
			n := fn.Name()
			return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
				unsupported("vsym function %s", n)
				return nil
			}
		}
	}
	if nf, ok := nativeFns[name]; ok {
		return nativeAdapter(name, nf)
	}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg != nil && noopPkgs[pkg.Pkg.Path()] && fn.Name() != "init" {
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return zeroResult(fn) }
	}
	if pkg != nil && pkg.Pkg.Path() == "math" && fn.Signature.Params().Len() > 0 {
		if in, ok := mathIntrinsic(fn.Name()); ok {
			return in
		}
	}
	return nil
}

// nativeFns run on the host when every argument is concrete; otherwise the
// function's own SSA is executed.
var nativeFns = map[string]any{
	"strings.Index": strings.Index, "strings.Contains": strings.Contains, "strings.HasPrefix": nil,
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll,
	"strings.LastIndex": strings.LastIndex, "strings.Count": strings.Count, "strings.IndexByte": strings.IndexByte,
	"strings.EqualFold": strings.EqualFold, "strings.Split": strings.Split, "strings.Fields": strings.Fields,
	"strconv.Itoa": strconv.Itoa, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint,
	"strconv.FormatFloat": strconv.FormatFloat, "strconv.Quote": strconv.Quote, "strconv.AppendQuote": nil,
	"strconv.ParseFloat": strconv.ParseFloat, "strconv.ParseInt": strconv.ParseInt, "strconv.Atoi": strconv.Atoi,
	"strconv.ParseUint": strconv.ParseUint, "strconv.Unquote": strconv.Unquote,
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower,
	"unicode.ToUpper": unicode.ToUpper, "unicode.IsPrint": unicode.IsPrint, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode.IsControl": unicode.IsControl, "unicode.SimpleFold": unicode.SimpleFold,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.RuneLen": utf8.RuneLen,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
}

func init() {
	for k, v := range nativeFns {
		if v == nil {
			delete(nativeFns, k)
		}
	}
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func nativeAdapter(name string, f any) intrinsic {
	rf := reflect.ValueOf(f)
	rt := rf.Type()
	return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
		in := make([]reflect.Value, len(args))
		ok := true
		for i, a := range args {
			var v reflect.Value
			v, ok = toNative(a, rt.In(i))
			if !ok {
				break
			}
			in[i] = v
		}
		if ok {
			out := rf.Call(in)
			good := true
			for i := range out {
				if rt.Out(i) == errType && !out[i].IsNil() {
					good = false
				}
			}
			if good {
				res := make(Tuple, len(out))
				for i := range out {
					if rt.Out(i) == errType {
						res[i] = Iface{}
						continue
					}
					res[i] = fromNative(out[i])
				}
				if len(res) == 1 {
					return res[0]
				}
				return res
			}
		}
		return it.callBody(fr, fn, args)
	}
}

// callBody runs the SSA body of a function that also has an intrinsic.
func (it *Interp) callBody(fr *frame, fn *ssa.Function, args []Value) Value {
	fi := it.bodies[fn]
	if fi == nil {
		fi = &fnInfo{fn: fn, name: fn.String()}
		it.bodies[fn] = fi
		it.compileInto(fi)
	}
	if len(fi.blocks) == 0 {
		unsupported("no body for %s", fn)
	}
	if fr.pr.depth > 3000 {
		panic(pathEnd{"depth", "call depth exceeded at " + fr.where()})
	}
	nf := &frame{it: it, pr: fr.pr, caller: fr, info: fi, env: make([]Value, fi.nregs)}
	copy(nf.env, args)
	nf.block = fi.blocks[0]
	if !fi.hasDefer {
		it.run(nf)
	} else {
		for !nf.done {
			it.runDeferring(nf)
		}
	}
	return nf.result
}

func toNative(v Value, t reflect.Type) (reflect.Value, bool) {
	switch t.Kind() {
	case reflect.String:
		s, ok := isConcreteStr(v)
		if !ok {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(s).Convert(t), true
	case reflect.Bool:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.val != 0), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(sext64(x.val, x.sort)).Convert(t), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(x.val).Convert(t), true
	case reflect.Float64:
		x, ok := v.(*Term)
		if !ok || !x.isConst() {
			return reflect.Value{}, false
		}
		return reflect.ValueOf(fv(x.val)), true
	}
	return reflect.Value{}, false
}

func fromNative(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return BoolT(v.Bool())
	case reflect.Int, reflect.Int64:
		return Int64T(v.Int())
	case reflect.Int32:
		return BV(uint64(v.Int()), 32)
	case reflect.Int16:
		return BV(uint64(v.Int()), 16)
	case reflect.Int8:
		return BV(uint64(v.Int()), 8)
	case reflect.Uint, reflect.Uint64:
		return BV(v.Uint(), 64)
	case reflect.Uint8:
		return BV(v.Uint(), 8)
	case reflect.Uint16:
		return BV(v.Uint(), 16)
	case reflect.Uint32:
		return BV(v.Uint(), 32)
	case reflect.Float64:
		return F64(v.Float())
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		s := make(Slice, v.Len())
		for i := range s {
			s[i] = fromNative(v.Index(i))
		}
		return s
	}
	panic("fromNative " + v.Type().String())
}

func T(v Value) *Term { return v.(*Term) }

func constStrArg(it *Interp, fr *frame, v Value) string {
	s, ok := isConcreteStr(v)
	if !ok {
		unsupported("vsym name must be constant at %s", fr.where())
	}
	return s
}

func (it *Interp) newInput(fr *frame, name, kind string, s Sort) *Term {
	if it.P.initPath {
		unsupported("vsym in initialiser")
	}
	t := it.NewVar(s, name)
	it.P.inputs = append(it.P.inputs, input{name: name, kind: kind, t: t})
	return t
}

func mathUn(op Op) intrinsic {
	return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
		return it.FUn(op, T(args[0]))
	}
}

func mathIntrinsic(name string) (intrinsic, bool) {
	conc := func(f any) intrinsic {
		rf := reflect.ValueOf(f)
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			in := make([]reflect.Value, len(args))
			for i, a := range args {
				v, ok := toNative(a, rf.Type().In(i))
				if !ok {
					unsupported("math.%s of a symbolic value at %s", fn.Name(), fr.where())
				}
				in[i] = v
			}
			out := rf.Call(in)
			if len(out) == 1 {
				return fromNative(out[0])
			}
			tu := Tuple{}
			for _, o := range out {
				tu = append(tu, fromNative(o))
			}
			return tu
		}
	}
	switch name {
	case "Floor", "floor":
		return mathUn(OFFloor), true
	case "Ceil", "ceil":
		return mathUn(OFCeil), true
	case "Trunc", "trunc":
		return mathUn(OFTrunc), true
	case "Round":
		return mathUn(OFRna), true
	case "RoundToEven":
		return mathUn(OFRne), true
	case "Sqrt", "sqrt":
		return mathUn(OFSqrt), true
	case "Abs":
		return mathUn(OFAbs), true
	case "Float64frombits":
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return it.FFromBits(T(args[0])) }, true
	case "Float64bits":
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			t := T(args[0])
			if t.isConst() {
				return BV(t.val, 64)
			}
			if t.op == OFFromBits {
				return t.a
			}
			b := it.NewVar(64, "fbits")
			it.assume(fr, it.FCmp(OFSame, it.FFromBits(b), t))
			return b
		}, true
	case "IsNaN":
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value { return it.FIsNaN(T(args[0])) }, true
	case "IsInf":
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			x, s := T(args[0]), T(args[1])
			pos := it.FCmp(OFLt, F64(math.MaxFloat64), x)
			neg := it.FCmp(OFLt, x, F64(-math.MaxFloat64))
			if s.isConst() {
				switch sg := sext64(s.val, 64); {
				case sg > 0:
					return pos
				case sg < 0:
					return neg
				}
				return it.Or(pos, neg)
			}
			return it.Or(it.And(it.Cmp(OSle, Int64T(0), s), pos), it.And(it.Cmp(OSle, s, Int64T(0)), neg))
		}, true
	case "Max", "Min":
		isMax := name == "Max"
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			x, y := T(args[0]), T(args[1])
			if x.isConst() && y.isConst() {
				if isMax {
					return F64(math.Max(fv(x.val), fv(y.val)))
				}
				return F64(math.Min(fv(x.val), fv(y.val)))
			}
			nan := it.Or(it.FIsNaN(x), it.FIsNaN(y))
			var m *Term
			if isMax {
				m = it.Ite(it.FCmp(OFLt, x, y), y, x)
			} else {
				m = it.Ite(it.FCmp(OFLt, y, x), y, x)
			}
			return it.Ite(nan, F64(math.NaN()), m)
		}, true
	case "Log":
		return conc(math.Log), true
	case "Log10", "log10":
		return conc(math.Log10), true
	case "Log2", "log2":
		return conc(math.Log2), true
	case "Pow":
		return conc(math.Pow), true
	case "Pow10":
		return conc(math.Pow10), true
	case "Exp":
		return conc(math.Exp), true
	case "Mod":
		return conc(math.Mod), true
	case "Modf":
		return func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value {
			x := T(args[0])
			i := it.FUn(OFTrunc, x)
			return Tuple{i, it.FBin(OFSub, x, i)}
		}, true
	case "Hypot":
		return conc(math.Hypot), true
	case "Atan2":
		return conc(math.Atan2), true
	case "FMA":
		return conc(math.FMA), true
	case "Frexp":
		return conc(math.Frexp), true
	case "Ldexp":
		return conc(math.Ldexp), true
	}
	return nil, false
}

func (it *Interp) timeNow(fr *frame) Value {
	P := it.P
	// time.Time{wall, ext, loc}: no monotonic reading; seconds since year 1.
	if P.clock == nil {
		P.clock = Int64T(63_770_000_000)
	} else {
		P.clock = it.Bin(OAdd, P.clock, Int64T(1-P.clockSlow))
	}
	return Struct{BV(0, 64), P.clock, (*Value)(nil)}
}

func (it *Interp) newTimer(fr *frame, period bool, d Value) *Chan {
	c := &Chan{cap: 1, isTimer: true, timer: &timerSrc{period: period, max: it.P.timerMax}}
	if it.P.simulate {
		c.timer.every = it.concInt(fr, d, "timer")
		c.timer.next = it.P.vtime + c.timer.every
	}
	it.P.timers = append(it.P.timers, c)
	return c
}

// rtyp is a type seen through reflection.
type rtyp struct{ t types.Type }

func nativeMethod(it *Interp, fr *frame, nv NativeV, name string, args []Value) Value {
	if r, ok := nv.v.(*rtyp); ok {
		switch name {
		case "Comparable":
			return BoolT(types.Comparable(r.t))
		case "String":
			return types.TypeString(r.t, func(p *types.Package) string { return p.Name() })
		}
	}
	unsupported("method %s of host value %T", name, nv.v)
	return nil
}

func fieldIndex(t types.Type, name string) int {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (it *Interp) atomicSync(fr *frame, p Value) *Value {
	q, ok := p.(*Value)
	if !ok {
		unsupported("atomic on %T", p)
	}
	if q == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	it.schedPoint(fr, "atomic")
	if len(it.P.procs) > 1 {
		l := it.lockOf(q)
		fr.pr.vc = fr.pr.vc.join(l.vc)
		l.vc = fr.pr.release()
	}
	return q
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	v := func(name string, f func(it *Interp, fr *frame, a []Value) Value) {
		reg(vsymPath+"."+name, func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return f(it, fr, a) })
	}
	scalar := func(fname, kind string, s Sort) {
		v(fname, func(it *Interp, fr *frame, a []Value) Value {
			return it.newInput(fr, constStrArg(it, fr, a[0]), kind, s)
		})
	}
	scalar("Int", "int", 64)
	scalar("Int64", "int", 64)
	scalar("Uint64", "uint64", 64)
	scalar("Int32", "int", 32)
	scalar("Int16", "int", 16)
	scalar("Rune", "int", 32)
	scalar("Byte", "byte", 8)
	v("Bool", func(it *Interp, fr *frame, a []Value) Value {
		t := it.newInput(fr, constStrArg(it, fr, a[0]), "bool", SBool)
		return t
	})
	v("Float64", func(it *Interp, fr *frame, a []Value) Value {
		name := constStrArg(it, fr, a[0])
		b := it.NewVar(64, name)
		it.P.inputs = append(it.P.inputs, input{name: name, kind: "float64", t: it.FFromBits(b)})
		return it.FFromBits(b)
	})
	rng := func(it *Interp, fr *frame, a []Value) Value {
		if lo, hi := T(a[1]), T(a[2]); lo.isConst() && hi.isConst() {
			l, h := int64(lo.val), int64(hi.val)
			if l > h {
				panic(pathEnd{"infeasible", "empty range"})
			}
			name := constStrArg(it, fr, a[0])
			var t *Term
			if l == h {
				t = lo
			} else {
				t = it.NewVarIn(64, name, l, h)
			}
			it.P.inputs = append(it.P.inputs, input{name: name, kind: "int", t: t})
			return t
		}
		t := it.newInput(fr, constStrArg(it, fr, a[0]), "int", 64)
		lo, hi := T(a[1]), T(a[2])
		it.assume(fr, it.And(it.Cmp(OSle, lo, t), it.Cmp(OSle, t, hi)))
		return t
	}
	v("IntRange", rng)
	v("Int64Range", rng)
	v("Choice", func(it *Interp, fr *frame, a []Value) Value {
		n := it.concInt(fr, a[1], "choice bound")
		if n <= 0 {
			panic(pathEnd{"infeasible", "empty choice"})
		}
		k := it.choose(fr, int(n), "choice")
		it.P.inputs = append(it.P.inputs, input{name: constStrArg(it, fr, a[0]), kind: "choice", val: int64(k)})
		return Int64T(int64(k))
	})
	v("Bytes", func(it *Interp, fr *frame, a []Value) Value {
		name := constStrArg(it, fr, a[0])
		n := int(it.concInt(fr, a[1], "length"))
		s := make(Slice, n)
		bs := make([]*Term, n)
		for i := range s {
			bs[i] = it.NewVar(8, name)
			s[i] = bs[i]
		}
		it.P.inputs = append(it.P.inputs, input{name: name, kind: "bytes", bs: bs})
		return s
	})
	v("String", func(it *Interp, fr *frame, a []Value) Value {
		name := constStrArg(it, fr, a[0])
		n := int(it.concInt(fr, a[1], "length"))
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = it.NewVar(8, name)
		}
		it.P.inputs = append(it.P.inputs, input{name: name, kind: "bytes", bs: bs})
		return mkStr(bs)
	})
	v("Pick", func(it *Interp, fr *frame, a []Value) Value {
		name := constStrArg(it, fr, a[0])
		sl := a[1].(Slice)
		opts := make([]string, len(sl))
		for i := range sl {
			opts[i] = constStrArg(it, fr, sl[i])
		}
		if len(opts) == 1 {
			it.P.inputs = append(it.P.inputs, input{name: name, kind: "choice", val: 0})
			return opts[0]
		}
		t := it.newInput(fr, name, "pick", 16)
		it.assume(fr, it.Cmp(OUlt, t, BV(uint64(len(opts)), 16)))
		return &SymStr{sel: t, opts: opts}
	})
	v("Assume", func(it *Interp, fr *frame, a []Value) Value { it.assume(fr, T(a[0])); return nil })
	v("Assert", func(it *Interp, fr *frame, a []Value) Value {
		it.assertProp(fr, T(a[0]), constStrArg(it, fr, a[1]))
		return nil
	})
	v("Fail", func(it *Interp, fr *frame, a []Value) Value {
		it.assertProp(fr, FalseT, constStrArg(it, fr, a[0]))
		return nil
	})
	v("Reach", func(it *Interp, fr *frame, a []Value) Value {
		it.P.reached = append(it.P.reached, constStrArg(it, fr, a[0]))
		return nil
	})
	v("Observe", func(it *Interp, fr *frame, a []Value) Value {
		ifc := a[1].(Iface)
		it.P.obs = append(it.P.obs, obs{constStrArg(it, fr, a[0]), ifc.v})
		return nil
	})
	v("Bound", func(it *Interp, fr *frame, a []Value) Value {
		q, t := T(a[1]), T(a[2])
		val := int64(q.val)
		if it.cfg.tier == "thorough" {
			val = int64(t.val)
		}
		it.job.setBound(constStrArg(it, fr, a[0]), val)
		return Int64T(val)
	})
	v("Symbolic", func(it *Interp, fr *frame, a []Value) Value { return TrueT })
	v("MapOrder", func(it *Interp, fr *frame, a []Value) Value {
		it.P.mapOrder = int(T(a[0]).val)
		return nil
	})
	v("MapOrderAll", func(it *Interp, fr *frame, a []Value) Value {
		it.P.mapOrder = int(T(a[0]).val)
		it.P.mapOrderAll = true
		return nil
	})
	v("Preempt", func(it *Interp, fr *frame, a []Value) Value {
		it.P.preBound = int(T(a[0]).val)
		return nil
	})
	v("Timers", func(it *Interp, fr *frame, a []Value) Value {
		it.P.timerMax = int(T(a[0]).val)
		return nil
	})
	// what the code does takes no time; sleeping and timers take theirs, and
	// goroutines take turns but for as many exceptions as Preempt allows
	v("Simulate", func(it *Interp, fr *frame, a []Value) Value {
		it.P.simulate = true
		return nil
	})
	// takes long when it is run for real: only to replay a violation
	v("Slow", func(it *Interp, fr *frame, a []Value) Value {
		it.P.noSample = true
		return nil
	})
	v("FreezeClock", func(it *Interp, fr *frame, a []Value) Value {
		it.P.clockSlow = 1
		return nil
	})
	v("MaxSteps", func(it *Interp, fr *frame, a []Value) Value {
		it.P.maxSteps = it.P.steps + int64(T(a[0]).val)
		it.P.hangIsBug = true
		return nil
	})
	v("Register", func(it *Interp, fr *frame, a []Value) Value { return nil })
	v("Concrete", func(it *Interp, fr *frame, a []Value) Value {
		return Int64T(it.concInt(fr, a[0], "concrete"))
	})
	v("Tier", func(it *Interp, fr *frame, a []Value) Value { return it.cfg.tier })
	v("SetClock", func(it *Interp, fr *frame, a []Value) Value {
		it.P.clock = it.Bin(OAdd, T(a[0]), Int64T(62135596800))
		return nil
	})
	v("And", func(it *Interp, fr *frame, a []Value) Value {
		r := TrueT
		for _, x := range a[0].(Slice) {
			r = it.And(r, T(x))
		}
		return r
	})
	v("Or", func(it *Interp, fr *frame, a []Value) Value {
		r := FalseT
		for _, x := range a[0].(Slice) {
			r = it.Or(r, T(x))
		}
		return r
	})
	v("Implies", func(it *Interp, fr *frame, a []Value) Value { return it.Or(it.Not(T(a[0])), T(a[1])) })
	v("Ite", func(it *Interp, fr *frame, a []Value) Value { return it.Ite(T(a[0]), T(a[1]), T(a[2])) })
	v("B2I", func(it *Interp, fr *frame, a []Value) Value { return it.Ite(T(a[0]), Int64T(1), Int64T(0)) })

	// --- sync ---
	reg("(*sync.Mutex).Lock", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.lock(fr, lockPtr(it, fr, a[0]), false)
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return BoolT(it.lock(fr, lockPtr(it, fr, a[0]), true))
	})
	reg("(*sync.Mutex).Unlock", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.unlock(fr, lockPtr(it, fr, a[0]))
		return nil
	})
	reg("(*sync.RWMutex).Lock", intrinsics["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).TryLock", intrinsics["(*sync.Mutex).TryLock"])
	reg("(*sync.RWMutex).Unlock", intrinsics["(*sync.Mutex).Unlock"])
	reg("(*sync.RWMutex).RLock", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.rlock(fr, lockPtr(it, fr, a[0]), false)
		return nil
	})
	reg("(*sync.RWMutex).TryRLock", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return BoolT(it.rlock(fr, lockPtr(it, fr, a[0]), true))
	})
	reg("(*sync.RWMutex).RUnlock", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.runlock(fr, lockPtr(it, fr, a[0]))
		return nil
	})
	wg := func(it *Interp, p *Value) *wgState {
		w := it.P.wgs[p]
		if w == nil {
			w = &wgState{}
			it.P.wgs[p] = w
		}
		return w
	}
	wgAdd := func(it *Interp, fr *frame, p *Value, n int64) {
		w := wg(it, p)
		w.n += n
		if w.n < 0 {
			it.rtPanicPlain(fr, "sync: negative WaitGroup counter")
		}
		w.vc = w.vc.join(fr.pr.release())
	}
	reg("(*sync.WaitGroup).Add", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(it, fr, lockPtr(it, fr, a[0]), it.concInt(fr, a[1], "wg add"))
		it.schedPoint(fr, "after wg.Add")
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(it, fr, lockPtr(it, fr, a[0]), -1)
		it.schedPoint(fr, "after wg.Done")
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := lockPtr(it, fr, a[0])
		w := wg(it, p)
		it.schedPoint(fr, "wg.Wait")
		it.block(fr, "WaitGroup.Wait", func() bool { return w.n == 0 })
		fr.pr.vc = fr.pr.vc.join(w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := lockPtr(it, fr, a[0])
		wgAdd(it, fr, p, 1)
		f := a[1]
		it.spawn(fr, &Closure{native: func(it *Interp, fr *frame, _ []Value) Value {
			it.callValue(fr, f, nil, false)
			wgAdd(it, fr, p, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := lockPtr(it, fr, a[0])
		i := fieldIndex(fn.Signature.Recv().Type(), "New")
		f := (*p).(Struct)[i]
		if c, ok := f.(*Closure); ok && c != nil {
			return it.callValue(fr, c, nil, false)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return nil })
	smap := func(it *Interp, fr *frame, p Value) *Map {
		q := lockPtr(it, fr, p)
		if m, ok := it.P.side[q]; ok {
			return m.(*Map)
		}
		at := types.NewInterfaceType(nil, nil)
		m := it.newMap(types.NewMap(at, at))
		it.P.side[q] = m
		return m
	}
	reg("(*sync.Map).Load", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.atomicSync(fr, a[0])
		m := smap(it, fr, a[0])
		v, ok := it.mapLookup(fr, m, a[1], m.typ)
		return Tuple{v, ok}
	})
	reg("(*sync.Map).Store", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.atomicSync(fr, a[0])
		m := smap(it, fr, a[0])
		it.mapUpdate(fr, m, a[1], a[2], m.typ)
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.atomicSync(fr, a[0])
		m := smap(it, fr, a[0])
		if e := it.mapFind(fr, m, a[1], m.typ); e != nil {
			return Tuple{e.v, TrueT}
		}
		it.mapUpdate(fr, m, a[1], a[2], m.typ)
		return Tuple{a[2], FalseT}
	})
	reg("(*sync.Map).Delete", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.atomicSync(fr, a[0])
		m := smap(it, fr, a[0])
		it.mapDelete(fr, m, a[1], m.typ)
		return nil
	})
	// --- atomic ---
	for _, ty := range []struct {
		n string
		s Sort
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}, {"Pointer", 0}} {
		reg("sync/atomic.Load"+ty.n, func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return copyVal(*it.atomicSync(fr, a[0]))
		})
		reg("sync/atomic.Store"+ty.n, func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			it.setCell(it.atomicSync(fr, a[0]), a[1])
			return nil
		})
		reg("sync/atomic.Swap"+ty.n, func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := it.atomicSync(fr, a[0])
			old := *p
			it.setCell(p, a[1])
			return old
		})
		reg("sync/atomic.Add"+ty.n, func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := it.atomicSync(fr, a[0])
			n := it.Bin(OAdd, T(*p), T(a[1]))
			it.setCell(p, n)
			return n
		})
		reg("sync/atomic.CompareAndSwap"+ty.n, func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			p := it.atomicSync(fr, a[0])
			var eq *Term
			if t, ok := (*p).(*Term); ok {
				eq = it.Eq(t, T(a[1]))
			} else {
				eq = it.equal(fr, nil, *p, a[1])
			}
			if it.decideT(fr, eq) {
				it.setCell(p, a[2])
				return TrueT
			}
			return FalseT
		})
	}
	aptr := func(it *Interp, fr *frame, a Value) *Value {
		p := it.atomicSync(fr, a)
		st := (*p).(Struct)
		return &st[len(st)-1]
	}
	unU := func(v Value) Value {
		if u, ok := v.(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			return u.v
		}
		return v
	}
	reg("(*sync/atomic.Pointer[T]).Load", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return unU(*aptr(it, fr, a[0]))
	})
	reg("(*sync/atomic.Pointer[T]).Store", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.setCell(aptr(it, fr, a[0]), UPtr{a[1]})
		return nil
	})
	reg("(*sync/atomic.Pointer[T]).Swap", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := aptr(it, fr, a[0])
		o := unU(*p)
		it.setCell(p, UPtr{a[1]})
		return o
	})
	reg("(*sync/atomic.Pointer[T]).CompareAndSwap", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := aptr(it, fr, a[0])
		if unU(*p) == a[1] {
			it.setCell(p, UPtr{a[2]})
			return TrueT
		}
		return FalseT
	})
	reg("(*sync/atomic.Value).Load", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return *aptr(it, fr, a[0])
	})
	reg("(*sync/atomic.Value).Store", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.setCell(aptr(it, fr, a[0]), a[1])
		return nil
	})

	// --- runtime, os, misc ---
	nop := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }
	for _, n := range []string{"runtime.GC", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.Callers", "runtime.Caller",
		"runtime/debug.Stack", "runtime/debug.PrintStack", "os.Getenv", "os.LookupEnv", "(*strings.Builder).copyCheck",
		"runtime.Stack", "internal/abi.Escape", "runtime/debug.FreeOSMemory",
		"(*os.File).Write", "(*os.File).WriteString", "os.Getpid"} {
		reg(n, nop)
	}
	delete(intrinsics, "internal/abi.Escape")
	reg("runtime.Gosched", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		it.schedPoint(fr, "Gosched")
		return nil
	})
	reg("runtime.NumCPU", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Int64T(4) })
	reg("runtime.GOMAXPROCS", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Int64T(2) })
	reg("runtime.Goexit", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		panic(pathEnd{"goexit", ""})
	})
	reg("internal/abi.NoEscape", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	// there is a terminal; it is never read from or drawn to directly
	reg("syscall.Open", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Tuple{Int64T(3), Iface{}} })
	reg("os.Exit", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		panic(pathEnd{"exit", "os.Exit at " + fr.where()})
	})
	reg("time.Now", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return it.timeNow(fr) })
	reg("time.now", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return it.timeNow(fr) })
	reg("time.Sleep", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if it.P.simulate && !it.P.initPath {
			at := it.P.vtime + it.concInt(fr, a[0], "sleep")
			fr.pr.wakeAt = at
			it.block(fr, "sleep", func() bool { return it.P.vtime >= at })
			fr.pr.wakeAt = 0
			return nil
		}
		// the others run meanwhile: in turn, since who sleeps is usually polling
		if !it.P.initPath && len(it.P.procs) > 1 {
			n := len(it.P.procs)
			for i := 1; i < n; i++ {
				if p := it.P.procs[(fr.pr.id+i)%n]; p != fr.pr && p.runnable() {
					it.switchTo(fr.pr, p)
					break
				}
			}
		}
		return nil
	})
	reg("time.After", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return it.newTimer(fr, false, a[0]) })
	mkTimer := func(period bool) intrinsic {
		return func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			tt := deref(fn.Signature.Results().At(0).Type())
			st := zero(tt).(Struct)
			c := it.newTimer(fr, period, a[0])
			st[fieldIndex(tt, "C")] = c
			p := new(Value)
			*p = st
			return p
		}
	}
	reg("time.NewTicker", mkTimer(true))
	reg("time.NewTimer", mkTimer(false))
	reg("time.Tick", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return it.newTimer(fr, true, a[0]) })
	stopT := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		c := (*p).(Struct)[fieldIndex(fn.Signature.Recv().Type(), "C")].(*Chan)
		if c != nil {
			c.timer.stop = true
		}
		if fn.Signature.Results().Len() == 1 {
			return TrueT
		}
		return nil
	}
	reg("(*time.Ticker).Stop", stopT)
	reg("(*time.Timer).Stop", stopT)
	reg("(*time.Ticker).Reset", nop)

	// --- reflect subset ---
	mkRV := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return NativeV{&rval{a[0].(Iface)}} }
	reg("reflect.ValueOf", mkRV)
	reg("internal/reflectlite.ValueOf", mkRV)
	rv := func(v Value) *rval {
		if n, ok := v.(NativeV); ok {
			if r, ok := n.v.(*rval); ok {
				return r
			}
		}
		unsupported("reflect.Value of unmodelled origin")
		return nil
	}
	rlen := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		switch x := rv(a[0]).ifc.v.(type) {
		case Slice:
			return Int64T(int64(len(x)))
		case *Map:
			if x == nil {
				return Int64T(0)
			}
			if it.P.racy {
				it.raceRead(fr, &x.loc)
			}
			return Int64T(int64(x.live))
		case string:
			return Int64T(int64(len(x)))
		}
		unsupported("reflect Len")
		return nil
	}
	reg("(internal/reflectlite.Value).Len", rlen)
	reg("(reflect.Value).Len", rlen)
	reg("(reflect.Value).MapKeys", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		r := rv(a[0])
		m, ok := r.ifc.v.(*Map)
		if !ok {
			it.rtPanicPlain(fr, "reflect: call of MapKeys on non-map")
		}
		kt := r.ifc.t.Underlying().(*types.Map).Key()
		s := Slice{}
		if m != nil {
			if it.P.racy {
				it.raceRead(fr, &m.loc)
			}
			for _, e := range m.ents {
				if !e.dead {
					s = append(s, NativeV{&rval{Iface{kt, copyVal(e.k)}}})
				}
			}
		}
		return s
	})
	reg("(reflect.Value).Interface", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return rv(a[0]).ifc
	})
	swapper := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			unsupported("Swapper of %T", a[0].(Iface).v)
		}
		return &Closure{native: func(it *Interp, fr *frame, args []Value) Value {
			i := it.concInt(fr, args[0], "swap index")
			j := it.concInt(fr, args[1], "swap index")
			if it.P.racy {
				it.raceWrite(fr, &s[i])
				it.raceWrite(fr, &s[j])
			}
			x, y := copyVal(s[i]), copyVal(s[j])
			it.storeInto(&s[i], y)
			it.storeInto(&s[j], x)
			return nil
		}}
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("internal/reflectlite.TypeOf", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{fn.Pkg.Type("rtype").Type(), NativeV{&rtyp{i.t}}}
	})
	reg("reflect.TypeOf", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{types.NewPointer(fn.Pkg.Type("rtype").Type()), NativeV{&rtyp{i.t}}}
	})
	// a timer whose function never runs within the explored histories
	reg("time.AfterFunc", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = zero(deref(fn.Signature.Results().At(0).Type()))
		return p
	})
	reg("reflect.DeepEqual", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return it.deepEqual(fr, a[0], a[1])
	})

	// --- fmt ---
	reg("fmt.Sprintf", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return it.sprintf(fr, a[0], a[1].(Slice))
	})
	reg("fmt.Sprint", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return it.sprint(fr, a[0].(Slice), false)
	})
	reg("fmt.Sprintln", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return it.sprint(fr, a[0].(Slice), true)
	})
	reg("fmt.Errorf", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s := it.sprintf(fr, a[0], a[1].(Slice))
		f, _ := isConcreteStr(a[0])
		if strings.Count(f, "%w") == 1 {
			for _, x := range a[1].(Slice) {
				if ifc, ok := x.(Iface); ok && ifc.t != nil && it.methodByName(ifc.t, "Error") != nil {
					if tn := it.prog.ImportedPackage("fmt").Type("wrapError"); tn != nil {
						p := new(Value)
						*p = Struct{s, ifc}
						return Iface{types.NewPointer(tn.Type()), p}
					}
				}
			}
		}
		return it.mkError(s)
	})
	fwrite := func(it *Interp, fr *frame, w Value, s Value) Value {
		ifc := w.(Iface)
		if ifc.t == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		m := it.methodByName(ifc.t, "Write")
		if m == nil {
			unsupported("Write method of %s", ifc.t)
		}
		if isOpaque(s) {
			unsupported("writes formatted text with symbolic content")
		}
		b := it.convert(fr, types.Typ[types.String], types.NewSlice(types.Typ[types.Byte]), s)
		r := it.callFn(fr, m, []Value{ifc.v, b}, nil)
		return r
	}
	reg("fmt.Fprintf", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return fwrite(it, fr, a[0], it.sprintf(fr, a[1], a[2].(Slice)))
	})
	reg("fmt.Fprint", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return fwrite(it, fr, a[0], it.sprint(fr, a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return fwrite(it, fr, a[0], it.sprint(fr, a[1].(Slice), true))
	})
	reg("fmt.Printf", nop)
	reg("fmt.Println", nop)
	reg("fmt.Print", nop)

	// --- bytealg (assembly) ---
	idxByte := func(it *Interp, fr *frame, b []*Term, c *Term) Value {
		r := Int64T(-1)
		for i := len(b) - 1; i >= 0; i-- {
			r = it.Ite(it.Eq(b[i], c), Int64T(int64(i)), r)
		}
		return r
	}
	reg("internal/bytealg.IndexByteString", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return idxByte(it, fr, it.bytesOf(fr, a[0]), T(a[1]))
	})
	reg("internal/bytealg.IndexByte", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return idxByte(it, fr, sliceTerms(a[0]), T(a[1]))
	})
	cnt := func(it *Interp, b []*Term, c *Term) Value {
		r := Int64T(0)
		for _, x := range b {
			r = it.Bin(OAdd, r, it.Ite(it.Eq(x, c), Int64T(1), Int64T(0)))
		}
		return r
	}
	reg("internal/bytealg.CountString", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return cnt(it, it.bytesOf(fr, a[0]), T(a[1]))
	})
	reg("internal/bytealg.Count", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return cnt(it, sliceTerms(a[0]), T(a[1]))
	})
	idx := func(it *Interp, fr *frame, s, sub []*Term) Value {
		r := Int64T(-1)
		for i := len(s) - len(sub); i >= 0; i-- {
			c := TrueT
			for j := range sub {
				c = it.And(c, it.Eq(s[i+j], sub[j]))
			}
			r = it.Ite(c, Int64T(int64(i)), r)
		}
		return r
	}
	idxStr := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := isConcreteStr(a[0]); ok {
			if y, ok := isConcreteStr(a[1]); ok {
				return Int64T(int64(strings.Index(x, y)))
			}
		}
		return idx(it, fr, it.bytesOf(fr, a[0]), it.bytesOf(fr, a[1]))
	}
	reg("internal/bytealg.IndexString", idxStr)
	reg("strings.Index", idxStr)
	delete(nativeFns, "strings.Index")
	reg("internal/bytealg.Index", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return idx(it, fr, sliceTerms(a[0]), sliceTerms(a[1]))
	})
	reg("strings.Contains", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if x, ok := isConcreteStr(a[0]); ok {
			if y, ok := isConcreteStr(a[1]); ok {
				return BoolT(strings.Contains(x, y))
			}
		}
		s, sub := it.bytesOf(fr, a[0]), it.bytesOf(fr, a[1])
		r := FalseT
		for i := 0; i+len(sub) <= len(s); i++ {
			c := TrueT
			for j := range sub {
				c = it.And(c, it.Eq(s[i+j], sub[j]))
			}
			r = it.Or(r, c)
		}
		return r
	})
	delete(nativeFns, "strings.Contains")
	reg("internal/bytealg.Equal", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return it.strEq(fr, mkStr(sliceTerms(a[0])), mkStr(sliceTerms(a[1])))
	})
	reg("bytes.Equal", intrinsics["internal/bytealg.Equal"])
	cmp3 := func(it *Interp, x, y []*Term) Value {
		return it.Ite(it.strLess(x, y), Int64T(-1), it.Ite(it.strLess(y, x), Int64T(1), Int64T(0)))
	}
	reg("internal/bytealg.Compare", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return cmp3(it, sliceTerms(a[0]), sliceTerms(a[1]))
	})
	reg("internal/bytealg.CompareString", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return cmp3(it, it.bytesOf(fr, a[0]), it.bytesOf(fr, a[1]))
	})
	reg("strings.Compare", intrinsics["internal/bytealg.CompareString"])
	reg("internal/stringslite.Clone", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strings.Clone", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/bytealg.MakeNoZero", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(it.concInt(fr, a[0], "size"))
		s := make(Slice, n)
		for i := range s {
			s[i] = BV(0, 8)
		}
		return s
	})
	hash := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		var bs []*Term
		switch x := a[0].(type) {
		case Slice:
			bs = sliceTerms(x)
		default:
			bs = it.bytesOf(fr, x)
		}
		buf := make([]byte, len(bs))
		for i, b := range bs {
			if !b.isConst() {
				// an unknown byte: fork over its values
				buf[i] = byte(it.concInt(fr, b, "hashed byte"))
				continue
			}
			buf[i] = byte(b.val)
		}
		return BV(xxhash64(buf), 64)
	}
	reg("github.com/cespare/xxhash/v2.Sum64", hash)
	reg("github.com/cespare/xxhash/v2.Sum64String", hash)
	reg("github.com/cespare/xxhash.Sum64", hash)
	reg("math/rand.Float64", func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := it.FFromBits(it.NewVar(64, "rand"))
		it.assume(fr, it.And(it.FCmp(OFLe, F64(0), t), it.FCmp(OFLt, t, F64(1))))
		return t
	})
	rnd := func(it *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := it.NewVar(64, "rand")
		n := a[len(a)-1].(*Term)
		if n.sort == 32 {
			t = it.NewVar(32, "rand")
		}
		it.assume(fr, it.And(it.Cmp(OSle, BV(0, t.sort), t), it.Cmp(OSlt, t, n)))
		return t
	}
	reg("math/rand.Intn", rnd)
	reg("math/rand.Int63n", rnd)
	reg("math/rand.Seed", nop)
	reg("(*math/rand.Rand).Intn", rnd)
}

type rval struct{ ifc Iface }

func lockPtr(it *Interp, fr *frame, v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		poison(v, fr)
	}
	if p == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	return p
}

func sliceTerms(v Value) []*Term {
	s := v.(Slice)
	r := make([]*Term, len(s))
	for i := range s {
		r[i] = s[i].(*Term)
	}
	return r
}

func (it *Interp) mkError(s Value) Value {
	tn := it.prog.ImportedPackage("errors").Type("errorString")
	p := new(Value)
	*p = Struct{s}
	return Iface{types.NewPointer(tn.Type()), p}
}

// toFmt converts a value into a host value that prints the same way.
func (it *Interp) toFmt(fr *frame, ifc Iface) (any, bool) {
	if ifc.t == nil {
		return nil, true
	}
	if m := it.methodByName(ifc.t, "Error"); m != nil && m.Signature.Params().Len() == 0 {
		if p, ok := ifc.v.(*Value); !ok || p != nil {
			s := it.callFn(fr, m, []Value{copyVal(ifc.v)}, nil)
			cs, ok := isConcreteStr(s)
			return fmtStr(cs), ok
		}
	}
	if m := it.methodByName(ifc.t, "String"); m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 {
		if p, ok := ifc.v.(*Value); !ok || p != nil {
			s := it.callFn(fr, m, []Value{copyVal(ifc.v)}, nil)
			cs, ok := isConcreteStr(s)
			return fmtStr(cs), ok
		}
	}
	switch u := ifc.t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := isConcreteStr(ifc.v)
			return s, ok
		}
		t, ok := ifc.v.(*Term)
		if !ok || !t.isConst() {
			return nil, false
		}
		switch u.Kind() {
		case types.Bool:
			return t.val != 0, true
		case types.Float64:
			return fv(t.val), true
		case types.Float32:
			return float32(fv(t.val)), true
		case types.Int:
			return int(t.val), true
		case types.Int8:
			return int8(t.val), true
		case types.Int16:
			return int16(t.val), true
		case types.Int32:
			return int32(t.val), true
		case types.Int64:
			return int64(t.val), true
		case types.Uint:
			return uint(t.val), true
		case types.Uint8:
			return uint8(t.val), true
		case types.Uint16:
			return uint16(t.val), true
		case types.Uint32:
			return uint32(t.val), true
		case types.Uint64, types.Uintptr:
			return t.val, true
		}
	case *types.Slice:
		s, ok := ifc.v.(Slice)
		if !ok {
			return nil, false
		}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			buf := make([]byte, len(s))
			for i := range s {
				t, ok := s[i].(*Term)
				if !ok || !t.isConst() {
					return nil, false
				}
				buf[i] = byte(t.val)
			}
			return buf, true
		}
		out := make([]any, len(s))
		for i := range s {
			el := Iface{u.Elem(), s[i]}
			if x, ok := s[i].(Iface); ok {
				el = x
			}
			v, ok := it.toFmt(fr, el)
			if !ok {
				return nil, false
			}
			out[i] = v
		}
		return out, true
	case *types.Pointer:
		return nil, false
	}
	return nil, false
}

type fmtStr string

func (f fmtStr) Error() string { return string(f) }

func (it *Interp) fmtArgs(fr *frame, args Slice) ([]any, bool) {
	out := make([]any, len(args))
	all := true
	for i, a := range args {
		ifc, ok := a.(Iface)
		if !ok {
			poison(a, fr)
		}
		v, ok := it.toFmt(fr, ifc)
		if !ok {
			all = false
			continue
		}
		out[i] = v
	}
	return out, all
}

func (it *Interp) sprintf(fr *frame, f Value, args Slice) Value {
	fs, ok := isConcreteStr(f)
	if !ok {
		return it.opaque("format")
	}
	// "%s" style formats with symbolic strings are expanded precisely
	if v, ok := it.simpleFormat(fr, fs, args); ok {
		return v
	}
	a, ok := it.fmtArgs(fr, args)
	if !ok {
		return it.opaque(fs)
	}
	return fmt.Sprintf(strings.ReplaceAll(fs, "%w", "%v"), a...)
}

// fmtText returns the text of a value that %s and %v print as symbolic text.
func (it *Interp) fmtText(fr *frame, ifc Iface) (Value, bool) {
	if ifc.t == nil {
		return nil, false
	}
	for _, name := range []string{"Error", "String"} {
		m := it.methodByName(ifc.t, name)
		if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
			continue
		}
		if p, ok := ifc.v.(*Value); ok && p == nil {
			return nil, false
		}
		s, ok := it.callFn(fr, m, []Value{copyVal(ifc.v)}, nil).(*SymStr)
		return s, ok && !s.opaque
	}
	s, ok := ifc.v.(*SymStr)
	if !ok || s.opaque {
		return nil, false
	}
	b, ok := ifc.t.Underlying().(*types.Basic)
	return s, ok && b.Info()&types.IsString != 0
}

// simpleFormat expands formats with symbolic texts in %s and %v.
func (it *Interp) simpleFormat(fr *frame, fs string, args Slice) (Value, bool) {
	texts := map[int]Value{}
	for i, a := range args {
		ifc, ok := a.(Iface)
		if !ok {
			return nil, false
		}
		if s, ok := it.fmtText(fr, ifc); ok {
			texts[i] = s
		}
	}
	if len(texts) == 0 {
		return nil, false
	}
	var res Value = ""
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			j := i
			for j < len(fs) && fs[j] != '%' {
				j++
			}
			res = it.concat(fr, res, fs[i:j])
			i = j - 1
			continue
		}
		i++
		if i >= len(fs) {
			return nil, false
		}
		switch fs[i] {
		case '%':
			res = it.concat(fr, res, "%")
		case 's', 'v', 'd', 'q', 'w':
			if ai >= len(args) {
				return nil, false
			}
			ifc := args[ai].(Iface)
			t, sym := texts[ai]
			ai++
			if sym {
				if fs[i] == 'd' || fs[i] == 'q' {
					return nil, false
				}
				res = it.concat(fr, res, t)
				continue
			}
			v, ok := it.toFmt(fr, ifc)
			if !ok {
				return nil, false
			}
			c := fs[i]
			if c == 'w' {
				c = 'v'
			}
			res = it.concat(fr, res, fmt.Sprintf("%"+string(c), v))
		default:
			return nil, false
		}
	}
	if ai != len(args) {
		return nil, false
	}
	return res, true
}

func isStringArg(ifc Iface) bool {
	if ifc.t == nil {
		return false
	}
	b, ok := ifc.t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (it *Interp) sprint(fr *frame, args Slice, ln bool) Value {
	var res Value = ""
	sym := false
	for i, a := range args {
		ifc, ok := a.(Iface)
		if !ok {
			poison(a, fr)
		}
		if i > 0 && (ln || !isStringArg(ifc) && !isStringArg(args[i-1].(Iface))) {
			res = it.concat(fr, res, " ")
		}
		if t, ok := it.fmtText(fr, ifc); ok {
			sym = true
			res = it.concat(fr, res, t)
			continue
		}
		v, ok := it.toFmt(fr, ifc)
		if !ok {
			return it.opaque("print")
		}
		res = it.concat(fr, res, fmt.Sprint(v))
	}
	if !sym {
		a, _ := it.fmtArgs(fr, args)
		if ln {
			return fmt.Sprintln(a...)
		}
		return fmt.Sprint(a...)
	}
	if ln {
		res = it.concat(fr, res, "\n")
	}
	return res
}

func (it *Interp) deepEqual(fr *frame, x, y Value) Value {
	xi, yi := x.(Iface), y.(Iface)
	if xi.t == nil || yi.t == nil {
		return BoolT(xi.t == nil && yi.t == nil)
	}
	if !types.Identical(xi.t, yi.t) {
		return FalseT
	}
	return it.deepEq(fr, xi.t, xi.v, yi.v, 0)
}

func (it *Interp) deepEq(fr *frame, t types.Type, x, y Value, d int) *Term {
	if d > 40 {
		unsupported("DeepEqual depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, b := x.(Slice), y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return FalseT
		}
		r := TrueT
		for i := range a {
			r = it.And(r, it.deepEq(fr, u.Elem(), a[i], b[i], d+1))
		}
		return r
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		r := TrueT
		for i := range a {
			r = it.And(r, it.deepEq(fr, u.Field(i).Type(), a[i], b[i], d+1))
		}
		return r
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return TrueT
		}
		if a == nil || b == nil {
			return FalseT
		}
		return it.deepEq(fr, u.Elem(), *a, *b, d+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return FalseT
		}
		if a == nil {
			return TrueT
		}
		if a.live != b.live {
			return FalseT
		}
		r := TrueT
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			f := it.mapFind(fr, b, e.k, u)
			if f == nil {
				return FalseT
			}
			r = it.And(r, it.deepEq(fr, u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Interface:
		return it.deepEqual(fr, x, y).(*Term)
	}
	return it.equal(fr, t, x, y)
}

// xxhash64 (seed 0), as used by the Prometheus labels package.
func xxhash64(b []byte) uint64 {
	const (
		p1 uint64 = 11400714785074694791
		p2 uint64 = 14029467366897019727
		p3 uint64 = 1609587929392839161
		p4 uint64 = 9650029242287828579
		p5 uint64 = 2870177450012600261
	)
	rol := func(x uint64, k uint) uint64 { return x<<k | x>>(64-k) }
	u64 := func(b []byte) uint64 {
		return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32 | uint64(b[5])<<40 | uint64(b[6])<<48 | uint64(b[7])<<56
	}
	u32 := func(b []byte) uint32 {
		return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
	}
	round := func(acc, in uint64) uint64 { acc += in * p2; acc = rol(acc, 31); return acc * p1 }
	merge := func(acc, val uint64) uint64 { val = round(0, val); acc ^= val; return acc*p1 + p4 }
	n := len(b)
	var h uint64
	if n >= 32 {
		x1, x2, x3, x4 := p1, p2, uint64(0), uint64(0)
		x1 += p2
		x4 -= p1
		for len(b) >= 32 {
			x1 = round(x1, u64(b[0:]))
			x2 = round(x2, u64(b[8:]))
			x3 = round(x3, u64(b[16:]))
			x4 = round(x4, u64(b[24:]))
			b = b[32:]
		}
		h = rol(x1, 1) + rol(x2, 7) + rol(x3, 12) + rol(x4, 18)
		h = merge(h, x1)
		h = merge(h, x2)
		h = merge(h, x3)
		h = merge(h, x4)
	} else {
		h = p5
	}
	h += uint64(n)
	for ; len(b) >= 8; b = b[8:] {
		h ^= round(0, u64(b))
		h = rol(h, 27)*p1 + p4
	}
	if len(b) >= 4 {
		h ^= uint64(u32(b)) * p1
		h = rol(h, 23)*p2 + p3
		b = b[4:]
	}
	for ; len(b) > 0; b = b[1:] {
		h ^= uint64(b[0]) * p5
		h = rol(h, 11) * p1
	}
	h ^= h >> 33
	h *= p2
	h ^= h >> 29
	h *= p3
	h ^= h >> 32
	return h
}
