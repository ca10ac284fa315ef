package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int
	val Value
}

type cinstr struct {
	in  ssa.Instruction
	dst int
	o   []opnd
	aux any
}

type cblock struct {
	b      *ssa.BasicBlock
	instrs []cinstr
	nphi   int
	pure   int8 // 0 unknown, 1 pure, 2 not
}

type fnInfo struct {
	fn       *ssa.Function
	nregs    int
	blocks   []*cblock
	regs     map[ssa.Value]int
	hasDefer bool
	intr     intrinsic
	pkgInit  bool
	name     string
	inRepo   bool
}

type intrinsic func(it *Interp, fr *frame, fn *ssa.Function, args []Value) Value

type frame struct {
	it        *Interp
	pr        *Proc
	caller    *frame
	info      *fnInfo
	env       []Value
	block     *cblock
	prev      *ssa.BasicBlock
	defers    []func()
	result    Value
	panicking bool
	panic     any
	pos       token.Pos
	done      bool
}

type targetPanic struct {
	v   Value // an Iface
	pos string
}

type pathEnd struct {
	kind string // "infeasible","done","violation","unsupported","steps","unknown","killed","goexit"
	msg  string
}

func engineErr(msg string) pathEnd { return pathEnd{"engine", msg} }

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

// Interp executes SSA symbolically; one per worker.
type Interp struct {
	*Builder
	ld      *Loaded
	prog    *ssa.Program
	solver  *Solver
	globals map[*ssa.Global]*Value
	infos   map[*ssa.Function]*fnInfo
	inited  map[*ssa.Package]int
	initing int
	trail   []trailEnt
	epoch   uint64

	P *Path // current path

	encoded   map[*ssa.Function]bool
	methods   map[methKey]*ssa.Function
	cfg       *Config
	job       *Job
	implC     map[implKey]bool
	opq       int
	bodies    map[*ssa.Function]*fnInfo
	evalEpoch uint64
}

type implKey struct {
	t types.Type
	i types.Type
}

type methKey struct {
	t types.Type
	m *types.Func
}

func unsupported(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

// ---- compilation ----

func (it *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := it.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	it.infos[fn] = fi
	fi.intr = lookupIntrinsic(fn)
	if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		fi.pkgInit = true
	}
	if fi.intr != nil {
		return fi
	}
	it.compileInto(fi)
	return fi
}

func (it *Interp) compileInto(fi *fnInfo) {
	fn := fi.fn
	it.ld.ensureBuilt(fn)
	if len(fn.Blocks) == 0 {
		return
	}
	fi.inRepo = fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "sigs.k8s.io/instrumentation-tools")
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.inRepo = strings.HasPrefix(o.Pkg.Pkg.Path(), "sigs.k8s.io/instrumentation-tools")
	}
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, f := range fn.FreeVars {
		regs[f] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.regs = regs
	var rands [12]*ssa.Value
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		cb.instrs = make([]cinstr, 0, len(b.Instrs))
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = regs[v]
			}
			ops := in.Operands(rands[:0])
			ci.o = make([]opnd, len(ops))
			for i, op := range ops {
				ci.o[i] = it.compileOpnd(fi, *op)
			}
			switch in := in.(type) {
			case *ssa.Phi:
				cb.nphi++
			case *ssa.Defer:
				fi.hasDefer = true
			case *ssa.Alloc:
				ci.aux = deref(in.Type())
			case *ssa.MakeInterface:
				ci.aux = in.X.Type()
			}
			cb.instrs = append(cb.instrs, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (it *Interp) compileOpnd(fi *fnInfo, v ssa.Value) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{reg: -1}
	case *ssa.Const:
		return opnd{reg: -1, val: constValue(v)}
	case *ssa.Function:
		return opnd{reg: -1, val: &Closure{fn: v}}
	case *ssa.Builtin:
		return opnd{reg: -1, val: &Closure{builtin: v}}
	case *ssa.Global:
		return opnd{reg: -1, val: it.global(v)}
	}
	return opnd{reg: fi.regs[v]}
}

func (it *Interp) global(g *ssa.Global) *Value {
	if p, ok := it.globals[g]; ok {
		return p
	}
	if g.Name() != "init$guard" {
		it.initPkg(g.Pkg)
		if p, ok := it.globals[g]; ok {
			return p
		}
	}
	p := new(Value)
	*p = zero(deref(g.Type()))
	it.globals[g] = p
	return p
}

// initPkg runs the initialiser of a package, once per worker, concretely.
func (it *Interp) initPkg(pkg *ssa.Package) {
	if it.inited[pkg] != 0 {
		return
	}
	it.inited[pkg] = 1
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := it.globals[g]; !ok {
				p := new(Value)
				*p = zero(deref(g.Type()))
				it.globals[g] = p
			}
		}
	}
	if skipInit[pkg.Pkg.Path()] {
		it.inited[pkg] = 2
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	it.initing++
	saveP := it.P
	it.P = &Path{it: it, initPath: true, maxSteps: 50_000_000, locks: map[*Value]*lockState{}, wgs: map[*Value]*wgState{}, side: map[*Value]any{}}
	defer func() {
		it.initing--
		it.P = saveP
		it.inited[pkg] = 2
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				it.ld.noteInit(pkg.Pkg.Path(), r.msg)
			case targetPanic:
				it.ld.noteInit(pkg.Pkg.Path(), "panic "+describe(r.v))
			default:
				panic(r)
			}
		}
	}()
	pr := &Proc{it: it}
	it.P.cur = pr
	it.P.procs = []*Proc{pr}
	it.callFn(&frame{it: it, pr: pr, info: &fnInfo{name: "init"}}, fn, nil, nil)
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if s, _, ok := sortOf(b); ok {
			switch {
			case s == SBool:
				return BoolT(constant.BoolVal(c.Value))
			case s == SF64:
				f := c.Float64()
				if b.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return F64(f)
			default:
				if b.Info()&types.IsUnsigned != 0 {
					return BV(c.Uint64(), s)
				}
				return BV(uint64(c.Int64()), s)
			}
		}
		if b.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	return Poison{"const " + c.String()}
}

// ---- execution ----

func (fr *frame) get(o *opnd) Value {
	if o.reg >= 0 {
		return fr.env[o.reg]
	}
	return o.val
}

func (it *Interp) posOf(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := it.prog.Fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (fr *frame) where() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		if f.info == nil || f.info.fn == nil {
			continue
		}
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.info.fn.Name() + "@" + f.it.posOf(f.pos))
		n++
	}
	return sb.String()
}

func (it *Interp) callFn(caller *frame, fn *ssa.Function, args []Value, free []Value) Value {
	fi := it.info(fn)
	if fi.intr != nil {
		return fi.intr(it, caller, fn, args)
	}
	if len(fi.blocks) == 0 {
		unsupported("call of external function %s at %s", fi.name, caller.where())
	}
	if fi.inRepo && it.initing == 0 {
		it.encoded[fn] = true
	}
	depth := caller.pr.depth
	if depth > 3000 {
		panic(pathEnd{"depth", "call depth exceeded at " + caller.where()})
	}
	caller.pr.depth++
	fr := &frame{it: it, pr: caller.pr, caller: caller, info: fi, env: make([]Value, fi.nregs)}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], free)
	fr.block = fi.blocks[0]
	if !fi.hasDefer {
		it.run(fr)
	} else {
		for !fr.done {
			it.runDeferring(fr)
		}
	}
	caller.pr.depth = depth
	return fr.result
}

func (it *Interp) runDeferring(fr *frame) {
	depth := fr.pr.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		switch r := r.(type) {
		case targetPanic:
			fr.pr.depth = depth
			fr.panicking = true
			fr.panic = r
		case pathEnd:
			if r.kind == "goexit" {
				fr.panicking = true
				fr.panic = r
				break
			}
			panic(r)
		default:
			panic(r)
		}
		fr.runDefers()
		if fr.info.fn.Recover == nil {
			// named results unavailable: zero results
			fr.result = zeroResult(fr.info.fn)
			fr.done = true
			return
		}
		fr.block = fr.info.blocks[fr.info.fn.Recover.Index]
	}()
	it.run(fr)
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d func()) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			switch r := r.(type) {
			case targetPanic:
				fr.panicking = true
				fr.panic = r
			case pathEnd:
				if r.kind == "goexit" {
					fr.panicking = true
					fr.panic = r
					return
				}
				panic(r)
			default:
				panic(r)
			}
		}
	}()
	d()
	ok = true
}

// run executes until the function returns.
func (it *Interp) run(fr *frame) {
	for {
		blk := fr.block
		i := 0
		if blk.nphi > 0 {
			it.phis(fr, blk)
			i = blk.nphi
		}
		n := len(blk.instrs)
		it.P.steps += int64(n)
		if it.P.steps&0xffff < int64(n) && it.job != nil && it.job.memHigh.Load() {
			panic(pathEnd{"budget", "memory used up"})
		}
		if it.P.steps > it.P.maxSteps {
			where := fr.where()
			if it.P.simulate {
				where = ""
				for _, p := range it.P.procs {
					if !p.done && p.blockOn != "" {
						where += fmt.Sprintf("; g%d %s", p.id, trunc(p.blockOn, 90))
					}
				}
			}
			panic(pathEnd{"steps", "step limit at " + where})
		}
		for ; i < n; i++ {
			ci := &blk.instrs[i]
			switch it.exec(fr, ci) {
			case kNext:
				continue
			case kReturn:
				return
			case kJump:
				goto nextBlock
			}
		}
		panic("fell off block")
	nextBlock:
	}
}

func (it *Interp) phis(fr *frame, blk *cblock) {
	pi := -1
	for i, p := range blk.b.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	if blk.nphi == 1 {
		ci := &blk.instrs[0]
		fr.env[ci.dst] = fr.get(&ci.o[pi])
		return
	}
	var tmp [16]Value
	vals := tmp[:0]
	for i := 0; i < blk.nphi; i++ {
		vals = append(vals, fr.get(&blk.instrs[i].o[pi]))
	}
	for i := 0; i < blk.nphi; i++ {
		fr.env[blk.instrs[i].dst] = vals[i]
	}
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (fr *frame) jump(to *ssa.BasicBlock) {
	fr.prev = fr.block.b
	fr.block = fr.info.blocks[to.Index]
}

func (it *Interp) exec(fr *frame, ci *cinstr) kont {
	if p := ci.in.Pos(); p != token.NoPos {
		fr.pos = p
	}
	switch in := ci.in.(type) {
	case *ssa.UnOp:
		fr.env[ci.dst] = it.unop(fr, in, fr.get(&ci.o[0]))
	case *ssa.BinOp:
		fr.env[ci.dst] = it.binop(fr, in.Op, in.X.Type(), fr.get(&ci.o[0]), fr.get(&ci.o[1]), in.Y.Type())
	case *ssa.Call:
		if fr.info.pkgInit {
			fr.env[ci.dst] = it.initCall(fr, in, ci)
		} else {
			fr.env[ci.dst] = it.doCall(fr, &in.Call, ci)
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.env[ci.dst] = fr.get(&ci.o[0])
	case *ssa.Convert:
		fr.env[ci.dst] = it.convert(fr, in.X.Type(), in.Type(), fr.get(&ci.o[0]))
	case *ssa.MultiConvert:
		fr.env[ci.dst] = it.convert(fr, in.X.Type(), in.Type(), fr.get(&ci.o[0]))
	case *ssa.SliceToArrayPointer:
		unsupported("slice to array pointer")
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: in.X.Type(), v: copyVal(fr.get(&ci.o[0]))}
	case *ssa.Extract:
		t := fr.get(&ci.o[0])
		tu, ok := t.(Tuple)
		if !ok {
			poison(t, fr)
		}
		fr.env[ci.dst] = tu[in.Index]
	case *ssa.Slice:
		fr.env[ci.dst] = it.slice(fr, in, fr.get(&ci.o[0]), fr.get(&ci.o[1]), fr.get(&ci.o[2]), fr.get(&ci.o[3]))
	case *ssa.Return:
		switch len(ci.o) {
		case 0:
		case 1:
			fr.result = fr.get(&ci.o[0])
		default:
			res := make(Tuple, len(ci.o))
			for i := range ci.o {
				res[i] = fr.get(&ci.o[i])
			}
			fr.result = res
		}
		fr.done = true
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{fr.get(&ci.o[0]), fr.where()})
	case *ssa.Send:
		it.chanSend(fr, fr.get(&ci.o[0]), fr.get(&ci.o[1]))
	case *ssa.Store:
		it.store(fr, fr.get(&ci.o[0]), fr.get(&ci.o[1]))
	case *ssa.If:
		it.branch(fr, ci, in)
		return kJump
	case *ssa.Jump:
		fr.jump(fr.block.b.Succs[0])
		return kJump
	case *ssa.Defer:
		fn, args := it.prepareCall(fr, &in.Call, ci)
		target := fr
		if in.DeferStack != nil {
			if ds, ok := fr.get(&ci.o[len(ci.o)-1]).(*frame); ok {
				target = ds
			}
			args = args[:len(args)]
		}
		pos := in.Pos()
		target.defers = append(target.defers, func() {
			fr.pos = pos
			it.callValue(target, fn, args, true)
		})
	case *ssa.Go:
		fn, args := it.prepareCall(fr, &in.Call, ci)
		it.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := it.concInt(fr, fr.get(&ci.o[0]), "chan size")
		fr.env[ci.dst] = &Chan{cap: int(n)}
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(ci.aux.(types.Type))
		fr.env[ci.dst] = p
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := it.concLen(fr, fr.get(&ci.o[0]), "makeslice: len out of range")
		c := it.concLen(fr, fr.get(&ci.o[1]), "makeslice: cap out of range")
		if c < n {
			it.rtPanic(fr, "makeslice: cap out of range")
		}
		s := make(Slice, n, c)
		full := s[:c]
		for i := range full {
			full[i] = zero(et)
		}
		fr.env[ci.dst] = s
	case *ssa.MakeMap:
		fr.env[ci.dst] = it.newMap(in.Type().Underlying().(*types.Map))
	case *ssa.Range:
		fr.env[ci.dst] = it.rangeIter(fr, fr.get(&ci.o[0]), in.X.Type())
	case *ssa.Next:
		fr.env[ci.dst] = it.next(fr, in, fr.get(&ci.o[0]).(*Iter))
	case *ssa.FieldAddr:
		fr.env[ci.dst] = it.fieldAddr(fr, fr.get(&ci.o[0]), in.Field)
	case *ssa.Field:
		st, ok := fr.get(&ci.o[0]).(Struct)
		if !ok {
			poison(fr.get(&ci.o[0]), fr)
		}
		fr.env[ci.dst] = copyVal(st[in.Field])
	case *ssa.IndexAddr:
		fr.env[ci.dst] = it.indexAddr(fr, fr.get(&ci.o[0]), fr.get(&ci.o[1]), in.Index.Type())
	case *ssa.Index:
		fr.env[ci.dst] = it.index(fr, fr.get(&ci.o[0]), fr.get(&ci.o[1]), in.Index.Type())
	case *ssa.Lookup:
		x := fr.get(&ci.o[0])
		if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
			m, ok := x.(*Map)
			if !ok {
				poison(x, fr)
			}
			v, okT := it.mapLookup(fr, m, fr.get(&ci.o[1]), mt)
			if in.CommaOk {
				fr.env[ci.dst] = Tuple{v, okT}
			} else {
				fr.env[ci.dst] = v
			}
		} else {
			fr.env[ci.dst] = it.index(fr, x, fr.get(&ci.o[1]), in.Index.Type())
		}
	case *ssa.MapUpdate:
		m, ok := fr.get(&ci.o[0]).(*Map)
		if !ok {
			poison(fr.get(&ci.o[0]), fr)
		}
		if m == nil {
			it.rtPanicPlain(fr, "assignment to entry in nil map")
		}
		it.mapUpdate(fr, m, fr.get(&ci.o[1]), copyVal(fr.get(&ci.o[2])), in.Map.Type().Underlying().(*types.Map))
	case *ssa.TypeAssert:
		fr.env[ci.dst] = it.typeAssert(fr, in, fr.get(&ci.o[0]))
	case *ssa.MakeClosure:
		free := make([]Value, len(ci.o)-1)
		for i := range free {
			free[i] = fr.get(&ci.o[i+1])
		}
		fr.env[ci.dst] = &Closure{fn: in.Fn.(*ssa.Function), free: free}
	case *ssa.Phi:
		panic("phi")
	case *ssa.Select:
		fr.env[ci.dst] = it.selectOp(fr, in, ci)
	default:
		unsupported("instruction %T at %s", ci.in, fr.where())
	}
	return kNext
}

// initCall runs a call inside a package initialiser; failures poison the result.
func (it *Interp) initCall(fr *frame, in *ssa.Call, ci *cinstr) (res Value) {
	if f := in.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Synthetic == "package initializer" {
		return nil // lazily initialised on demand
	}
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch r := r.(type) {
			case pathEnd:
				msg = r.msg
			case targetPanic:
				msg = "panic " + describe(r.v)
			default:
				panic(r)
			}
			it.ld.noteInit(fr.info.fn.Pkg.Pkg.Path(), msg)
			if tt, ok := in.Type().(*types.Tuple); ok {
				tu := make(Tuple, tt.Len())
				for i := range tu {
					tu[i] = Poison{msg}
				}
				res = tu
			} else {
				res = Poison{msg}
			}
		}
	}()
	return it.doCall(fr, &in.Call, ci)
}

func poison(v Value, fr *frame) {
	if p, ok := v.(Poison); ok {
		unsupported("uses a value whose initialiser could not be run: %s at %s", p.why, fr.where())
	}
	unsupported("unexpected value %T at %s", v, fr.where())
}

func (it *Interp) prepareCall(fr *frame, c *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	na := len(c.Args)
	if c.IsInvoke() {
		recv := fr.get(&ci.o[0])
		ifc, ok := recv.(Iface)
		if !ok {
			poison(recv, fr)
		}
		if ifc.t == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		args := make([]Value, na+1)
		args[0] = copyVal(ifc.v)
		for i := 0; i < na; i++ {
			args[i+1] = copyVal(fr.get(&ci.o[i+1]))
		}
		if nv, ok := ifc.v.(NativeV); ok {
			name := c.Method.Name()
			return &Closure{native: func(it *Interp, fr *frame, args []Value) Value {
				return nativeMethod(it, fr, nv, name, args[1:])
			}}, args
		}
		fn := it.lookupMethod(ifc.t, c.Method)
		if fn == nil {
			unsupported("method %s of %s not found", c.Method.Name(), ifc.t)
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, na)
	for i := 0; i < na; i++ {
		args[i] = copyVal(fr.get(&ci.o[i+1]))
	}
	return fr.get(&ci.o[0]), args
}

func (it *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if f, ok := it.methods[k]; ok {
		return f
	}
	it.ld.mu.Lock()
	f := it.prog.LookupMethod(t, m.Pkg(), m.Name())
	it.ld.mu.Unlock()
	it.methods[k] = f
	return f
}

// methodByName finds a method of t by exported name.
func (it *Interp) methodByName(t types.Type, name string) *ssa.Function {
	it.ld.mu.Lock()
	defer it.ld.mu.Unlock()
	ms := it.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return it.prog.MethodValue(sel)
}

func (it *Interp) doCall(fr *frame, c *ssa.CallCommon, ci *cinstr) Value {
	fn, args := it.prepareCall(fr, c, ci)
	if cl, ok := fn.(*Closure); ok && cl != nil && cl.builtin != nil {
		return it.callBuiltin(fr, cl.builtin, args, c)
	}
	return it.callValue(fr, fn, args, false)
}

func (it *Interp) callValue(fr *frame, fn Value, args []Value, deferred bool) Value {
	cl, ok := fn.(*Closure)
	if !ok {
		poison(fn, fr)
	}
	if cl == nil {
		it.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		return cl.native(it, fr, args)
	}
	if cl.builtin != nil {
		return it.callBuiltin(fr, cl.builtin, args, nil)
	}
	return it.callFn(fr, cl.fn, args, cl.free)
}

// ---- panics ----

func (it *Interp) rtPanic(fr *frame, msg string) { it.rtPanicPlain(fr, msg) }
func (it *Interp) rtPanicPlain(fr *frame, msg string) {
	panic(targetPanic{it.rtErr(msg), fr.where()})
}

func (it *Interp) rtErr(msg string) Value {
	if pkg := it.prog.ImportedPackage("runtime"); pkg != nil {
		if tn := pkg.Type("errorString"); tn != nil {
			return Iface{t: tn.Type(), v: msg}
		}
	}
	return Iface{t: types.Typ[types.String], v: "runtime error: " + msg}
}

// ---- memory ----

func (it *Interp) setCell(p *Value, v Value) {
	if it.initing == 0 {
		it.trail = append(it.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

func (it *Interp) undoTrail() {
	for i := len(it.trail) - 1; i >= 0; i-- {
		t := &it.trail[i]
		if t.fn != nil {
			t.fn()
		} else {
			*t.p = t.old
		}
		t.old = nil
		t.p = nil
		t.fn = nil
	}
	it.trail = it.trail[:0]
	if cap(it.trail) > 1<<21 {
		it.trail = nil
	}
}

func (it *Interp) load(fr *frame, ptr Value) Value {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		if it.P.racy {
			it.raceRead(fr, p)
		}
		return copyVal(*p)
	case *SymPtr:
		return it.loadSym(fr, p)
	}
	poison(ptr, fr)
	return nil
}

func (it *Interp) store(fr *frame, ptr Value, v Value) {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		if it.P.racy {
			it.raceWrite(fr, p)
		}
		it.storeInto(p, v)
	case *SymPtr:
		for i := range p.base {
			c := it.Eq(p.idx, BV(uint64(i), 64))
			if c == FalseT {
				continue
			}
			m, ok := it.merge(c, v, p.base[i])
			if !ok {
				k := it.concInt(fr, p.idx, "store index")
				it.storeInto(&p.base[k], v)
				return
			}
			it.setCell(&p.base[i], m)
		}
	default:
		poison(ptr, fr)
	}
}

func (it *Interp) storeInto(p *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(nv) {
			for i := range nv {
				it.storeInto(&old[i], nv[i])
			}
			return
		}
		it.setCell(p, copyVal(v))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			for i := range nv {
				it.storeInto(&old[i], nv[i])
			}
			return
		}
		it.setCell(p, copyVal(v))
	default:
		it.setCell(p, v)
	}
}

func (it *Interp) loadSym(fr *frame, p *SymPtr) Value {
	res := copyVal(p.base[len(p.base)-1])
	for i := len(p.base) - 2; i >= 0; i-- {
		c := it.Eq(p.idx, BV(uint64(i), 64))
		m, ok := it.merge(c, p.base[i], res)
		if !ok {
			k := it.concInt(fr, p.idx, "index")
			return copyVal(p.base[k])
		}
		res = m
	}
	return res
}

// merge builds ite(c, x, y) for values where that is possible.
func (it *Interp) merge(c *Term, x, y Value) (Value, bool) {
	if c.op == OConst {
		if c.val != 0 {
			return copyVal(x), true
		}
		return copyVal(y), true
	}
	switch xv := x.(type) {
	case *Term:
		yv, ok := y.(*Term)
		if !ok || xv.sort != yv.sort {
			return nil, false
		}
		if xv.sort == SF64 && xv.op == OConst && yv.op == OConst && xv.val == yv.val {
			return xv, true
		}
		return it.Ite(c, xv, yv), true
	case string:
		if yv, ok := y.(string); ok {
			if xv == yv {
				return xv, true
			}
			if len(xv) == len(yv) && len(xv) <= 8 {
				return it.mergeBytes(c, strBytes(xv), strBytes(yv)), true
			}
			return it.choiceStr(c, xv, yv)
		}
		if yv, ok := y.(*SymStr); ok {
			if yv.b != nil && len(yv.b) == len(xv) {
				return it.mergeBytes(c, strBytes(xv), yv.b), true
			}
			if yv.sel != nil {
				return it.choiceStr(c, xv, yv)
			}
		}
		return nil, false
	case *SymStr:
		if xv.b != nil {
			if yv, ok := y.(string); ok && len(yv) == len(xv.b) {
				return it.mergeBytes(c, xv.b, strBytes(yv)), true
			}
			if yv, ok := y.(*SymStr); ok && yv.b != nil && len(yv.b) == len(xv.b) {
				return it.mergeBytes(c, xv.b, yv.b), true
			}
		}
		if x == y {
			return x, true
		}
		if xv.sel != nil {
			return it.choiceStr(c, x, y)
		}
		return nil, false
	case Struct:
		yv, ok := y.(Struct)
		if !ok || len(xv) != len(yv) {
			return nil, false
		}
		r := make(Struct, len(xv))
		for i := range xv {
			m, ok := it.merge(c, xv[i], yv[i])
			if !ok {
				return nil, false
			}
			r[i] = m
		}
		return r, true
	case *Value:
		if yv, ok := y.(*Value); ok && xv == yv {
			return xv, true
		}
	case *Map:
		if yv, ok := y.(*Map); ok && xv == yv {
			return xv, true
		}
	case *Closure:
		if yv, ok := y.(*Closure); ok && (xv == yv || (xv != nil && yv != nil && xv.fn != nil && xv.fn == yv.fn && len(xv.free) == 0 && len(yv.free) == 0)) {
			return xv, true
		}
	case Slice:
		if yv, ok := y.(Slice); ok && len(xv) == len(yv) && cap(xv) == cap(yv) && ((xv == nil) == (yv == nil)) {
			if cap(xv) == 0 || &xv[:1][0] == &yv[:1][0] {
				return xv, true
			}
		}
	case Iface:
		if yv, ok := y.(Iface); ok {
			if xv.t == nil && yv.t == nil {
				return xv, true
			}
			if xv.t != nil && yv.t != nil && types.Identical(xv.t, yv.t) {
				m, ok := it.merge(c, xv.v, yv.v)
				if ok {
					return Iface{xv.t, m}, true
				}
			}
		}
	}
	return nil, false
}

func (it *Interp) mergeBytes(c *Term, x, y []*Term) Value {
	r := make([]*Term, len(x))
	for i := range x {
		r[i] = it.Ite(c, x[i], y[i])
	}
	return mkStr(r)
}

func (it *Interp) choiceOpts(v Value) ([]string, *Term, bool) {
	switch s := v.(type) {
	case string:
		return []string{s}, BV(0, 16), true
	case *SymStr:
		if s.sel != nil {
			return s.opts, s.sel, true
		}
	}
	return nil, nil, false
}

// choiceStr merges constant strings into a guarded choice.
func (it *Interp) choiceStr(c *Term, x, y Value) (Value, bool) {
	xo, xs, ok1 := it.choiceOpts(x)
	yo, ys, ok2 := it.choiceOpts(y)
	if !ok1 || !ok2 || len(xo)+len(yo) > 64 {
		return nil, false
	}
	opts := append([]string{}, xo...)
	pos := map[string]int{}
	for i, o := range opts {
		pos[o] = i
	}
	ymap := make([]int, len(yo))
	for i, o := range yo {
		if j, ok := pos[o]; ok {
			ymap[i] = j
		} else {
			pos[o] = len(opts)
			ymap[i] = len(opts)
			opts = append(opts, o)
		}
	}
	ysel := BV(uint64(ymap[len(yo)-1]), 16)
	for i := len(yo) - 2; i >= 0; i-- {
		ysel = it.Ite(it.Eq(ys, BV(uint64(i), 16)), BV(uint64(ymap[i]), 16), ysel)
	}
	return it.mkChoice(it.Ite(c, xs, ysel), opts), true
}

func (it *Interp) mkChoice(sel *Term, opts []string) Value {
	if sel.isConst() {
		return opts[sel.val]
	}
	return &SymStr{sel: sel, opts: opts}
}

// strForm makes a string value have explicit bytes (forking over the options
// of a choice when needed).
func (it *Interp) strForm(fr *frame, v Value) Value {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		if s.opaque {
			unsupported("inspects formatted text with symbolic content (%s) at %s", s.desc, fr.where())
		}
		if s.sel != nil {
			k := it.concInt(fr, it.Zext(s.sel, 64), "string choice")
			return s.opts[k]
		}
		return s
	}
	poison(v, fr)
	return nil
}

func (it *Interp) strLen(fr *frame, v Value) *Term {
	switch s := v.(type) {
	case string:
		return Int64T(int64(len(s)))
	case *SymStr:
		if s.opaque {
			unsupported("length of formatted text with symbolic content (%s) at %s", s.desc, fr.where())
		}
		if s.sel != nil {
			r := Int64T(int64(len(s.opts[len(s.opts)-1])))
			for i := len(s.opts) - 2; i >= 0; i-- {
				r = it.Ite(it.Eq(s.sel, BV(uint64(i), 16)), Int64T(int64(len(s.opts[i]))), r)
			}
			return r
		}
		return Int64T(int64(len(s.b)))
	}
	poison(v, fr)
	return nil
}

func (it *Interp) bytesOf(fr *frame, v Value) []*Term {
	switch s := it.strForm(fr, v).(type) {
	case string:
		return strBytes(s)
	case *SymStr:
		return s.b
	}
	return nil
}

func (it *Interp) fieldAddr(fr *frame, ptr Value, f int) Value {
	switch p := ptr.(type) {
	case *Value:
		if p == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		st, ok := (*p).(Struct)
		if !ok {
			poison(*p, fr)
		}
		return &st[f]
	case *SymPtr:
		k := it.concInt(fr, p.idx, "element index")
		st, ok := p.base[k].(Struct)
		if !ok {
			poison(p.base[k], fr)
		}
		return &st[f]
	}
	poison(ptr, fr)
	return nil
}

// boundIdx checks 0 <= idx < n and returns idx as a 64-bit term.
func (it *Interp) idx64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if x.sort == 64 {
		return x
	}
	_, signed, _ := sortOf(t.Underlying().(*types.Basic))
	if signed {
		return it.Sext(x, 64)
	}
	return it.Zext(x, 64)
}

func (it *Interp) boundsCheck(fr *frame, i *Term, n int) {
	c := it.Cmp(OUlt, i, BV(uint64(n), 64))
	if c.isConst() {
		if c.val == 0 {
			it.rtPanic(fr, fmt.Sprintf("index out of range [%s] with length %d", i.String(), n))
		}
		return
	}
	if !it.decide(fr, c) {
		it.rtPanic(fr, fmt.Sprintf("index out of range [symbolic] with length %d", n))
	}
}

func (it *Interp) indexAddr(fr *frame, x, iv Value, it_ types.Type) Value {
	if _, ok := iv.(*Term); !ok {
		poison(iv, fr)
	}
	i := it.idx64(iv, it_)
	var base []Value
	switch x := x.(type) {
	case Slice:
		base = x
	case *Value:
		if x == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(Array)
		if !ok {
			poison(*x, fr)
		}
		base = a
	case *SymPtr:
		k := it.concInt(fr, x.idx, "array index")
		base = x.base[k].(Array)
	default:
		poison(x, fr)
	}
	it.boundsCheck(fr, i, len(base))
	if i.isConst() {
		return &base[i.val]
	}
	if len(base) == 1 {
		return &base[0]
	}
	if len(base) <= 300 && allMergeable(base) {
		return &SymPtr{base: base, idx: i}
	}
	k := it.concInt(fr, i, "index")
	return &base[k]
}

func allMergeable(vs []Value) bool {
	for _, v := range vs {
		switch v := v.(type) {
		case *Term:
		case string:
			_ = v
		case Struct:
			if len(v) > 8 || !allMergeable(v) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (it *Interp) index(fr *frame, x, iv Value, it_ types.Type) Value {
	if _, ok := iv.(*Term); !ok {
		poison(iv, fr)
	}
	i := it.idx64(iv, it_)
	switch x := x.(type) {
	case Array:
		it.boundsCheck(fr, i, len(x))
		if i.isConst() {
			return copyVal(x[i.val])
		}
		return it.loadSym(fr, &SymPtr{base: x, idx: i})
	case string, *SymStr:
		s := it.strForm(fr, x)
		if cs, ok := s.(string); ok && i.isConst() {
			if i.val >= uint64(len(cs)) {
				it.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", int64(i.val), len(cs)))
			}
			return BV(uint64(cs[i.val]), 8)
		}
		b := it.bytesOf(fr, s)
		it.boundsCheck(fr, i, len(b))
		if i.isConst() {
			return b[i.val]
		}
		r := b[len(b)-1]
		for k := len(b) - 2; k >= 0; k-- {
			r = it.Ite(it.Eq(i, BV(uint64(k), 64)), b[k], r)
		}
		return r
	case Slice:
		p := it.indexAddr(fr, x, iv, it_)
		return it.load(fr, p)
	}
	poison(x, fr)
	return nil
}

func (it *Interp) slice(fr *frame, in *ssa.Slice, x, lo, hi, max Value) Value {
	var length, capacity int
	var sv Value
	isStr := false
	switch v := x.(type) {
	case string, *SymStr:
		sv = it.strForm(fr, v)
		if cs, ok := sv.(string); ok {
			length = len(cs)
		} else {
			length = len(sv.(*SymStr).b)
		}
		capacity = length
		isStr = true
	case Slice:
		sv = v
		length, capacity = len(v), cap(v)
	case *Value:
		if v == nil {
			it.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		a, ok := (*v).(Array)
		if !ok {
			poison(*v, fr)
		}
		sv = Slice(a[:len(a):len(a)])
		length, capacity = len(a), len(a)
	default:
		poison(x, fr)
	}
	getI := func(v Value, t ssa.Value, def int) *Term {
		if v == nil || t == nil {
			return Int64T(int64(def))
		}
		if _, ok := v.(*Term); !ok {
			poison(v, fr)
		}
		return it.idx64(v, t.Type())
	}
	l := getI(lo, in.Low, 0)
	h := getI(hi, in.High, length)
	m := getI(max, in.Max, capacity)
	chk := func(c *Term, what string) {
		if c.isConst() {
			if c.val == 0 {
				it.rtPanic(fr, what)
			}
			return
		}
		if !it.decide(fr, c) {
			it.rtPanic(fr, what)
		}
	}
	chk(it.Cmp(OUle, m, Int64T(int64(capacity))), "slice bounds out of range (max)")
	chk(it.Cmp(OUle, h, m), fmt.Sprintf("slice bounds out of range [:%s] with capacity %d", h, capacity))
	chk(it.Cmp(OUle, l, h), fmt.Sprintf("slice bounds out of range [%s:%s]", l, h))
	li := int(it.concInt(fr, l, "slice low"))
	hi_ := int(it.concInt(fr, h, "slice high"))
	mi := int(it.concInt(fr, m, "slice max"))
	if isStr {
		if cs, ok := sv.(string); ok {
			return cs[li:hi_]
		}
		return mkStr(sv.(*SymStr).b[li:hi_])
	}
	s := sv.(Slice)
	if s == nil {
		return s
	}
	return s[li:hi_:mi]
}

// concLen forks a length to concrete values, checking range.
func (it *Interp) concLen(fr *frame, v Value, msg string) int {
	t, ok := v.(*Term)
	if !ok {
		poison(v, fr)
	}
	if t.sort < 64 {
		t = it.Sext(t, 64)
	}
	c := it.And(it.Cmp(OSle, Int64T(0), t), it.Cmp(OSle, t, Int64T(1<<20)))
	if !c.isConst() {
		if !it.decide(fr, c) {
			it.rtPanic(fr, msg)
		}
	} else if c.val == 0 {
		if int64(t.val) > 1<<20 && int64(t.val) < 1<<33 {
			unsupported("allocation of %d elements at %s", t.val, fr.where())
		}
		it.rtPanic(fr, msg)
	}
	return int(it.concInt(fr, t, "length"))
}

// ---- branching and if-conversion ----

func (it *Interp) branch(fr *frame, ci *cinstr, in *ssa.If) {
	cv := fr.get(&ci.o[0])
	c, ok := cv.(*Term)
	if !ok {
		poison(cv, fr)
	}
	succs := fr.block.b.Succs
	if c.isConst() {
		if c.val != 0 {
			fr.jump(succs[0])
		} else {
			fr.jump(succs[1])
		}
		return
	}
	if !it.cfg.noMerge && it.tryMerge(fr, c) {
		return
	}
	if it.decide(fr, c) {
		fr.jump(succs[0])
	} else {
		fr.jump(succs[1])
	}
}

type mergeExit struct {
	guard *Term
	from  *ssa.BasicBlock
	to    *ssa.BasicBlock
}

// tryMerge if-converts a small side-effect-free region below the current
// block; on success the frame continues at the join with ite-valued phis.
func (it *Interp) tryMerge(fr *frame, c *Term) bool {
	if it.P.racy && false {
		return false
	}
	cur := fr.block
	var exits []mergeExit
	budget := 48
	blocks := 0
	var explore func(from, to *ssa.BasicBlock, g *Term) bool
	explore = func(from, to *ssa.BasicBlock, g *Term) bool {
		if g == FalseT {
			return true
		}
		if len(to.Preds) != 1 || to == cur.b {
			exits = append(exits, mergeExit{g, from, to})
			return len(exits) <= 8
		}
		cb := fr.info.blocks[to.Index]
		if blocks++; blocks > 10 {
			return false
		}
		for k := range cb.instrs {
			x := &cb.instrs[k]
			if budget--; budget < 0 {
				return false
			}
			switch t := x.in.(type) {
			case *ssa.Jump:
				return explore(to, to.Succs[0], g)
			case *ssa.If:
				cc, ok := fr.get(&x.o[0]).(*Term)
				if !ok {
					return false
				}
				return explore(to, to.Succs[0], it.And(g, cc)) && explore(to, to.Succs[1], it.And(g, it.Not(cc)))
			default:
				_ = t
				if !it.spec(fr, x) {
					// not speculable: this block is an exit in its own right
					exits = append(exits, mergeExit{g, from, to})
					return len(exits) <= 8
				}
			}
		}
		return false
	}
	b := cur.b
	// quick reject: both successors must be pure or joins
	if !explore(b, b.Succs[0], c) || !explore(b, b.Succs[1], it.Not(c)) {
		return false
	}
	if len(exits) == 0 {
		return false
	}
	// group by target
	targets := map[*ssa.BasicBlock][]mergeExit{}
	var order []*ssa.BasicBlock
	for _, e := range exits {
		if _, ok := targets[e.to]; !ok {
			order = append(order, e.to)
		}
		targets[e.to] = append(targets[e.to], e)
	}
	if len(order) > 2 {
		return false
	}
	if len(order) == 2 && blocks == 0 {
		return false // nothing to merge
	}
	// compute phi values per target
	type ph struct {
		dst int
		v   Value
	}
	phis := map[*ssa.BasicBlock][]ph{}
	for _, t := range order {
		cb := fr.info.blocks[t.Index]
		es := targets[t]
		for k := 0; k < cb.nphi; k++ {
			x := &cb.instrs[k]
			var v Value
			for j := len(es) - 1; j >= 0; j-- {
				e := es[j]
				pi := -1
				for q, p := range t.Preds {
					if p == e.from {
						pi = q
						break
					}
				}
				ev := fr.get(&x.o[pi])
				if v == nil {
					v = ev
				} else {
					m, ok := it.merge(e.guard, ev, v)
					if !ok {
						return false
					}
					v = m
				}
			}
			phis[t] = append(phis[t], ph{x.dst, v})
		}
	}
	tgt := order[0]
	if len(order) == 2 {
		g := FalseT
		for _, e := range targets[order[0]] {
			g = it.Or(g, e.guard)
		}
		var yes bool
		if g.isConst() {
			yes = g.val != 0
		} else {
			yes = it.decide(fr, g)
		}
		if !yes {
			tgt = order[1]
		}
	}
	for _, p := range phis[tgt] {
		fr.env[p.dst] = p.v
	}
	it.P.merges++
	// continue after the phis
	fr.prev = targets[tgt][0].from
	fr.block = fr.info.blocks[tgt.Index]
	if fr.block.nphi > 0 {
		fr.block = it.afterPhi(fr.info, fr.block)
	}
	return true
}

// afterPhi returns a view of the block without its phis.
func (it *Interp) afterPhi(fi *fnInfo, cb *cblock) *cblock {
	return &cblock{b: cb.b, instrs: cb.instrs[cb.nphi:]}
}

// spec executes one instruction speculatively if it is free of side effects
// and cannot fail.
func (it *Interp) spec(fr *frame, ci *cinstr) bool {
	switch in := ci.in.(type) {
	case *ssa.BinOp:
		x, y := fr.get(&ci.o[0]), fr.get(&ci.o[1])
		switch x.(type) {
		case *Term:
		case string, *SymStr:
			if in.Op != token.EQL && in.Op != token.NEQ {
				return false
			}
			if isOpaque(x) || isOpaque(y) {
				return false
			}
		case *Value:
			if in.Op != token.EQL && in.Op != token.NEQ {
				return false
			}
			if _, ok := y.(*Value); !ok {
				return false
			}
		default:
			return false
		}
		switch in.Op {
		case token.QUO, token.REM:
			yt := y.(*Term)
			if yt.sort != SF64 && (!yt.isConst() || yt.val == 0) {
				return false
			}
		case token.SHL, token.SHR:
			if yt := y.(*Term); !yt.isConst() {
				if _, signed, _ := sortOf(in.Y.Type().Underlying().(*types.Basic)); signed {
					return false
				}
			}
		}
		if xs, ok := x.(*SymStr); ok && xs.sel != nil {
			if _, ok := y.(string); !ok {
				return false
			}
		}
		fr.env[ci.dst] = it.binop(fr, in.Op, in.X.Type(), x, y, in.Y.Type())
		return true
	case *ssa.UnOp:
		x := fr.get(&ci.o[0])
		switch in.Op {
		case token.MUL:
			switch p := x.(type) {
			case *Value:
				if p == nil || it.P.racy {
					return false
				}
				if _, ok := (*p).(Poison); ok {
					return false
				}
				fr.env[ci.dst] = copyVal(*p)
				return true
			case *SymPtr:
				if !allMergeable(p.base) {
					return false
				}
				if _, ok := p.base[0].(*Term); !ok {
					return false
				}
				fr.env[ci.dst] = it.loadSym(fr, p)
				return true
			}
			return false
		case token.ARROW:
			return false
		}
		if _, ok := x.(*Term); !ok {
			return false
		}
		fr.env[ci.dst] = it.unop(fr, in, x)
		return true
	case *ssa.FieldAddr:
		p, ok := fr.get(&ci.o[0]).(*Value)
		if !ok || p == nil {
			return false
		}
		st, ok := (*p).(Struct)
		if !ok {
			return false
		}
		fr.env[ci.dst] = &st[in.Field]
		return true
	case *ssa.Field:
		st, ok := fr.get(&ci.o[0]).(Struct)
		if !ok {
			return false
		}
		fr.env[ci.dst] = copyVal(st[in.Field])
		return true
	case *ssa.IndexAddr:
		i, ok := fr.get(&ci.o[1]).(*Term)
		if !ok || !i.isConst() {
			return false
		}
		i = it.idx64(i, in.Index.Type())
		switch x := fr.get(&ci.o[0]).(type) {
		case Slice:
			if i.val >= uint64(len(x)) {
				return false
			}
			fr.env[ci.dst] = &x[i.val]
			return true
		case *Value:
			if x == nil {
				return false
			}
			a, ok := (*x).(Array)
			if !ok || i.val >= uint64(len(a)) {
				return false
			}
			fr.env[ci.dst] = &a[i.val]
			return true
		}
		return false
	case *ssa.Extract:
		tu, ok := fr.get(&ci.o[0]).(Tuple)
		if !ok {
			return false
		}
		fr.env[ci.dst] = tu[in.Index]
		return true
	case *ssa.Convert:
		x, ok := fr.get(&ci.o[0]).(*Term)
		if !ok {
			return false
		}
		if _, ok := in.Type().Underlying().(*types.Basic); !ok {
			return false
		}
		if in.Type().Underlying().(*types.Basic).Info()&types.IsString != 0 {
			return false
		}
		fr.env[ci.dst] = it.convert(fr, in.X.Type(), in.Type(), x)
		return true
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.env[ci.dst] = fr.get(&ci.o[0])
		return true
	case *ssa.MakeInterface:
		fr.env[ci.dst] = Iface{t: in.X.Type(), v: copyVal(fr.get(&ci.o[0]))}
		return true
	case *ssa.Call:
		if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "len":
				switch x := fr.get(&ci.o[1]).(type) {
				case string:
					fr.env[ci.dst] = Int64T(int64(len(x)))
					return true
				case Slice:
					fr.env[ci.dst] = Int64T(int64(len(x)))
					return true
				}
			}
		}
		return false
	}
	return false
}

func isOpaque(v Value) bool {
	s, ok := v.(*SymStr)
	return ok && s.opaque
}

// ---- operators ----

func (it *Interp) unop(fr *frame, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return it.load(fr, x)
	case token.ARROW:
		v, ok := it.chanRecv(fr, x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	t, ok := x.(*Term)
	if !ok {
		poison(x, fr)
	}
	switch in.Op {
	case token.NOT:
		return it.Not(t)
	case token.SUB:
		if t.sort == SF64 {
			return it.FUn(OFNeg, t)
		}
		return it.Neg(t)
	case token.XOR:
		return it.BvNot(t)
	}
	unsupported("unop %s", in.Op)
	return nil
}

func (it *Interp) binop(fr *frame, op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return it.equal(fr, t, x, y)
	case token.NEQ:
		return it.Not(it.equal(fr, t, x, y))
	}
	switch xv := x.(type) {
	case *Term:
		yv, ok := y.(*Term)
		if !ok {
			poison(y, fr)
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			unsupported("binop on %s", t)
		}
		_, signed, _ := sortOf(b)
		if xv.sort == SF64 {
			var r *Term
			switch op {
			case token.ADD:
				r = it.FBin(OFAdd, xv, yv)
			case token.SUB:
				r = it.FBin(OFSub, xv, yv)
			case token.MUL:
				r = it.FBin(OFMul, xv, yv)
			case token.QUO:
				r = it.FBin(OFDiv, xv, yv)
			case token.LSS:
				return it.FCmp(OFLt, xv, yv)
			case token.LEQ:
				return it.FCmp(OFLe, xv, yv)
			case token.GTR:
				return it.FCmp(OFLt, yv, xv)
			case token.GEQ:
				return it.FCmp(OFLe, yv, xv)
			}
			if b.Kind() == types.Float32 {
				r = it.FUn(OFTo32, r)
			}
			return r
		}
		if xv.sort == SBool {
			switch op {
			case token.AND:
				return it.And(xv, yv)
			case token.OR:
				return it.Or(xv, yv)
			}
			unsupported("bool binop %s", op)
		}
		switch op {
		case token.ADD:
			return it.Bin(OAdd, xv, yv)
		case token.SUB:
			return it.Bin(OSub, xv, yv)
		case token.MUL:
			return it.Bin(OMul, xv, yv)
		case token.QUO, token.REM:
			z := it.Eq(yv, BV(0, yv.sort))
			if z.isConst() {
				if z.val != 0 {
					it.rtPanic(fr, "integer divide by zero")
				}
			} else if it.decide(fr, z) {
				it.rtPanic(fr, "integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return it.Bin(OSdiv, xv, yv)
			case op == token.QUO:
				return it.Bin(OUdiv, xv, yv)
			case signed:
				return it.Bin(OSrem, xv, yv)
			default:
				return it.Bin(OUrem, xv, yv)
			}
		case token.AND:
			return it.Bin(OBvAnd, xv, yv)
		case token.OR:
			return it.Bin(OBvOr, xv, yv)
		case token.XOR:
			return it.Bin(OBvXor, xv, yv)
		case token.AND_NOT:
			return it.Bin(OBvAnd, xv, it.BvNot(yv))
		case token.SHL, token.SHR:
			yb := yt.Underlying().(*types.Basic)
			_, ysigned, _ := sortOf(yb)
			if ysigned {
				neg := it.Cmp(OSlt, yv, BV(0, yv.sort))
				if neg.isConst() {
					if neg.val != 0 {
						it.rtPanic(fr, "negative shift amount")
					}
				} else if it.decide(fr, neg) {
					it.rtPanic(fr, "negative shift amount")
				}
			}
			// saturate the amount to the operand width
			amt := yv
			w := xv.sort
			if amt.sort > w {
				big := it.Cmp(OUle, BV(uint64(w), amt.sort), amt)
				amt = it.Ite(big, BV(uint64(w), amt.sort), amt)
				if uint64(w) > mask(^uint64(0), w) {
					unsupported("shift width")
				}
				amt = it.Trunc(amt, w)
			} else if amt.sort < w {
				amt = it.Zext(amt, w)
			}
			if op == token.SHL {
				return it.Bin(OShl, xv, amt)
			}
			if signed {
				return it.Bin(OAshr, xv, amt)
			}
			return it.Bin(OLshr, xv, amt)
		case token.LSS:
			if signed {
				return it.Cmp(OSlt, xv, yv)
			}
			return it.Cmp(OUlt, xv, yv)
		case token.LEQ:
			if signed {
				return it.Cmp(OSle, xv, yv)
			}
			return it.Cmp(OUle, xv, yv)
		case token.GTR:
			if signed {
				return it.Cmp(OSlt, yv, xv)
			}
			return it.Cmp(OUlt, yv, xv)
		case token.GEQ:
			if signed {
				return it.Cmp(OSle, yv, xv)
			}
			return it.Cmp(OUle, yv, xv)
		}
	case string, *SymStr:
		if op == token.ADD {
			return it.concat(fr, x, y)
		}
		xs, xok := x.(string)
		ys, yok := y.(string)
		if xok && yok {
			switch op {
			case token.LSS:
				return BoolT(xs < ys)
			case token.LEQ:
				return BoolT(xs <= ys)
			case token.GTR:
				return BoolT(xs > ys)
			case token.GEQ:
				return BoolT(xs >= ys)
			}
		}
		a, b := it.bytesOf(fr, x), it.bytesOf(fr, y)
		switch op {
		case token.LSS:
			return it.strLess(a, b)
		case token.GTR:
			return it.strLess(b, a)
		case token.LEQ:
			return it.Not(it.strLess(b, a))
		case token.GEQ:
			return it.Not(it.strLess(a, b))
		}
	}
	poison(x, fr)
	return nil
}

func (it *Interp) strLess(a, b []*Term) *Term {
	n := min(len(a), len(b))
	r := BoolT(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		r = it.Or(it.Cmp(OUlt, a[i], b[i]), it.And(it.Eq(a[i], b[i]), r))
	}
	return r
}

func (it *Interp) concat(fr *frame, x, y Value) Value {
	xs, xok := x.(string)
	ys, yok := y.(string)
	if xok && yok {
		return xs + ys
	}
	if xok && xs == "" {
		return y
	}
	if yok && ys == "" {
		return x
	}
	if isOpaque(x) || isOpaque(y) {
		return it.opaque("concat")
	}
	a, b := it.bytesOf(fr, x), it.bytesOf(fr, y)
	r := make([]*Term, 0, len(a)+len(b))
	r = append(append(r, a...), b...)
	return mkStr(r)
}

func (it *Interp) opaque(desc string) *SymStr {
	it.opq++
	return &SymStr{opaque: true, id: it.opq, desc: desc}
}

func (it *Interp) strEq(fr *frame, x, y Value) *Term {
	xs, xok := x.(string)
	ys, yok := y.(string)
	if xok && yok {
		return BoolT(xs == ys)
	}
	if x == y {
		return TrueT
	}
	// choice against constant
	if xok {
		x, y = y, x
		ys, yok = xs, true
	}
	sx, ok := x.(*SymStr)
	if !ok {
		poison(x, fr)
	}
	if sx.sel != nil && yok {
		r := FalseT
		for i, o := range sx.opts {
			if o == ys {
				r = it.Or(r, it.Eq(sx.sel, BV(uint64(i), 16)))
			}
		}
		return r
	}
	if sy, ok := y.(*SymStr); ok && sx.sel != nil && sy.sel != nil {
		r := FalseT
		for i, o := range sx.opts {
			for j, p := range sy.opts {
				if o == p {
					r = it.Or(r, it.And(it.Eq(sx.sel, BV(uint64(i), 16)), it.Eq(sy.sel, BV(uint64(j), 16))))
				}
			}
		}
		return r
	}
	if sx.opaque || isOpaque(y) {
		unsupported("compares formatted text with symbolic content (%s) at %s", sx.desc, fr.where())
	}
	a, b := it.bytesOf(fr, x), it.bytesOf(fr, y)
	if len(a) != len(b) {
		return FalseT
	}
	r := TrueT
	for i := range a {
		r = it.And(r, it.Eq(a[i], b[i]))
	}
	return r
}

func (it *Interp) equal(fr *frame, t types.Type, x, y Value) *Term {
	switch xv := x.(type) {
	case *Term:
		yv, ok := y.(*Term)
		if !ok {
			poison(y, fr)
		}
		return it.Eq(xv, yv)
	case string, *SymStr:
		return it.strEq(fr, x, y)
	case *Value:
		switch yv := y.(type) {
		case *Value:
			return BoolT(xv == yv)
		case *SymPtr:
			return it.ptrEq(yv, xv)
		}
	case *SymPtr:
		switch yv := y.(type) {
		case *Value:
			return it.ptrEq(xv, yv)
		case *SymPtr:
			if len(xv.base) > 0 && len(yv.base) > 0 && &xv.base[0] == &yv.base[0] {
				return it.Eq(xv.idx, yv.idx)
			}
			return FalseT
		}
	case *Map:
		return BoolT(xv == y.(*Map))
	case *Chan:
		yv, ok := y.(*Chan)
		return BoolT(ok && xv == yv)
	case *Closure:
		yv, ok := y.(*Closure)
		return BoolT(ok && xv == yv)
	case Slice:
		return BoolT(xv == nil && y.(Slice) == nil)
	case UPtr:
		yv, ok := y.(UPtr)
		return BoolT(ok && xv.v == yv.v)
	case Iface:
		yv, ok := y.(Iface)
		if !ok {
			poison(y, fr)
		}
		if xv.t == nil || yv.t == nil {
			return BoolT(xv.t == nil && yv.t == nil)
		}
		if !types.Identical(xv.t, yv.t) {
			return FalseT
		}
		if !types.Comparable(xv.t) {
			it.rtPanic(fr, "comparing uncomparable type "+xv.t.String())
		}
		if nx, ok := xv.v.(NativeV); ok {
			ny, ok := yv.v.(NativeV)
			return BoolT(ok && nx.v == ny.v)
		}
		return it.equal(fr, xv.t, xv.v, yv.v)
	case Struct:
		yv, ok := y.(Struct)
		if !ok {
			poison(y, fr)
		}
		r := TrueT
		st := t.Underlying().(*types.Struct)
		for i := range xv {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = it.And(r, it.equal(fr, st.Field(i).Type(), xv[i], yv[i]))
		}
		return r
	case Array:
		yv := y.(Array)
		r := TrueT
		for i := range xv {
			r = it.And(r, it.equal(fr, t.Underlying().(*types.Array).Elem(), xv[i], yv[i]))
		}
		return r
	case NativeV:
		yv, ok := y.(NativeV)
		return BoolT(ok && xv.v == yv.v)
	}
	poison(x, fr)
	return nil
}

func (it *Interp) ptrEq(p *SymPtr, q *Value) *Term {
	for i := range p.base {
		if &p.base[i] == q {
			return it.Eq(p.idx, BV(uint64(i), 64))
		}
	}
	return FalseT
}

// ---- conversions ----

func (it *Interp) convert(fr *frame, from, to types.Type, x Value) Value {
	if _, ok := x.(Poison); ok {
		poison(x, fr)
	}
	uf, ut := from.Underlying(), to.Underlying()
	switch ut := ut.(type) {
	case *types.Basic:
		if ut.Info()&types.IsString != 0 {
			switch uf := uf.(type) {
			case *types.Basic:
				if uf.Info()&types.IsString != 0 {
					return x
				}
				// integer to string
				t := x.(*Term)
				if t.isConst() {
					_, signed, _ := sortOf(uf)
					if signed {
						v := sext64(t.val, t.sort)
						if v < 0 || v > utf8.MaxRune {
							return "\uFFFD"
						}
						return string(rune(v))
					}
					if t.val > utf8.MaxRune {
						return "\uFFFD"
					}
					return string(rune(t.val))
				}
				return it.runesToStr(fr, []*Term{it.intTo32(t, uf)})
			case *types.Slice:
				s, ok := x.(Slice)
				if !ok {
					poison(x, fr)
				}
				eb := uf.Elem().Underlying().(*types.Basic)
				ts := make([]*Term, len(s))
				for i, v := range s {
					t, ok := v.(*Term)
					if !ok {
						poison(v, fr)
					}
					ts[i] = t
				}
				if eb.Kind() == types.Uint8 {
					return mkStr(ts)
				}
				return it.runesToStr(fr, ts)
			}
		}
		if ut.Kind() == types.UnsafePointer {
			if b, ok := uf.(*types.Basic); ok && b.Kind() == types.Uintptr {
				unsupported("uintptr to unsafe.Pointer at %s", fr.where())
			}
			if u, ok := x.(UPtr); ok {
				return u
			}
			return UPtr{x}
		}
		ts, tsigned, ok := sortOf(ut)
		if !ok {
			unsupported("convert to %s", to)
		}
		if u, ok := x.(UPtr); ok {
			_ = u
			unsupported("unsafe.Pointer to uintptr at %s", fr.where())
		}
		t, ok := x.(*Term)
		if !ok {
			poison(x, fr)
		}
		fb := uf.(*types.Basic)
		fs, fsigned, _ := sortOf(fb)
		switch {
		case fs == SF64 && ts == SF64:
			if ut.Kind() == types.Float32 && fb.Kind() != types.Float32 {
				return it.FUn(OFTo32, t)
			}
			return t
		case fs == SF64:
			if !tsigned && ts == 64 {
				// amd64 float->uint64
				if t.isConst() {
					f := fv(t.val)
					return BV(uint64(f), 64)
				}
				two63 := F64(9223372036854775808.0)
				lo := it.FToS(t)
				hi := it.Bin(OBvXor, it.FToS(it.FBin(OFSub, t, two63)), BV(1<<63, 64))
				return it.Ite(it.FCmp(OFLt, t, two63), lo, hi)
			}
			return it.Trunc(it.FToS(t), ts)
		case ts == SF64:
			r := it.FFromInt(t, fsigned)
			if ut.Kind() == types.Float32 {
				r = it.FUn(OFTo32, r)
			}
			return r
		case fs == SBool || ts == SBool:
			return t
		case ts > fs:
			if fsigned {
				return it.Sext(t, ts)
			}
			return it.Zext(t, ts)
		default:
			return it.Trunc(t, ts)
		}
	case *types.Slice:
		if fb, ok := uf.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			eb := ut.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				if s, ok := x.(string); ok {
					r := make(Slice, len(s))
					for i := 0; i < len(s); i++ {
						r[i] = BV(uint64(s[i]), 8)
					}
					return r
				}
				b := it.bytesOf(fr, x)
				r := make(Slice, len(b))
				for i := range b {
					r[i] = b[i]
				}
				return r
			}
			r := Slice{}
			if s, ok := x.(string); ok {
				for _, c := range s {
					r = append(r, BV(uint64(uint32(c)), 32))
				}
				return r
			}
			sv := it.strForm(fr, x)
			if s, ok := sv.(string); ok {
				for _, c := range s {
					r = append(r, BV(uint64(uint32(c)), 32))
				}
				return r
			}
			b := it.bytesOf(fr, sv)
			for i := 0; i < len(b); {
				c, n := it.decodeRune(fr, b[i:])
				r = append(r, c)
				i += n
			}
			return r
		}
		return x
	case *types.Pointer:
		if u, ok := x.(UPtr); ok {
			if u.v == nil {
				return (*Value)(nil)
			}
			// *(*[]byte)(unsafe.Pointer(&sliceHeader{s, len(s)})): the bytes of a string
			if cell, ok := u.v.(*Value); ok && cell != nil {
				if e, ok := ut.Elem().Underlying().(*types.Slice); ok {
					if st, ok := (*cell).(Struct); ok && len(st) == 2 {
						nv := it.convert(fr, types.Typ[types.String], e, st[0])
						return &nv
					}
				}
			}
			// *(*string)(unsafe.Pointer(&bytes)): the string the bytes make now
			if cell, ok := u.v.(*Value); ok && cell != nil {
				if b, ok := ut.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.String {
					if sl, ok := (*cell).(Slice); ok {
						ts := make([]*Term, len(sl))
						for i, v := range sl {
							t, ok := v.(*Term)
							if !ok || t.sort != 8 {
								poison(v, fr)
							}
							ts[i] = t
						}
						nv := mkStr(ts)
						return &nv
					}
				}
			}
			return u.v
		}
		return x
	default:
		return x
	}
}

func (it *Interp) intTo32(t *Term, b *types.Basic) *Term {
	_, signed, _ := sortOf(b)
	if t.sort == 32 {
		return t
	}
	if t.sort < 32 {
		if signed {
			return it.Sext(t, 32)
		}
		return it.Zext(t, 32)
	}
	// 64-bit: out of range becomes invalid
	lo := it.Trunc(t, 32)
	ok := it.Cmp(OUle, t, BV(utf8.MaxRune, 64))
	return it.Ite(ok, lo, BV(0xFFFD, 32))
}

func (it *Interp) runesToStr(fr *frame, rs []*Term) Value {
	var out []*Term
	for _, r := range rs {
		out = append(out, it.encodeRune(fr, r)...)
	}
	return mkStr(out)
}

func (it *Interp) encodeRune(fr *frame, r *Term) []*Term {
	if r.isConst() {
		return strBytes(string(rune(int32(r.val))))
	}
	if it.decideT(fr, it.Cmp(OUlt, r, BV(0x80, 32))) {
		return []*Term{it.Trunc(r, 8)}
	}
	sh := func(n uint64) *Term {
		return it.Bin(OBvOr, it.Trunc(it.Bin(OBvAnd, it.Bin(OLshr, r, BV(n, 32)), BV(0x3f, 32)), 8), BV(0x80, 8))
	}
	hd := func(n uint64, m uint64) *Term {
		return it.Bin(OBvOr, it.Trunc(it.Bin(OLshr, r, BV(n, 32)), 8), BV(m, 8))
	}
	if it.decideT(fr, it.Cmp(OUlt, r, BV(0x800, 32))) {
		return []*Term{hd(6, 0xC0), sh(0)}
	}
	bad := it.Or(it.Cmp(OUlt, BV(utf8.MaxRune, 32), r), it.And(it.Cmp(OUle, BV(0xD800, 32), r), it.Cmp(OUle, r, BV(0xDFFF, 32))))
	if it.decideT(fr, bad) {
		return strBytes("\uFFFD")
	}
	if it.decideT(fr, it.Cmp(OUlt, r, BV(0x10000, 32))) {
		return []*Term{hd(12, 0xE0), sh(6), sh(0)}
	}
	return []*Term{hd(18, 0xF0), sh(12), sh(6), sh(0)}
}

func (it *Interp) decideT(fr *frame, c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	return it.decide(fr, c)
}

// decodeRune decodes one UTF-8 sequence, forking on its shape.
func (it *Interp) decodeRune(fr *frame, b []*Term) (*Term, int) {
	if len(b) == 0 {
		return BV(utf8.RuneError, 32), 0
	}
	allc := true
	n := min(4, len(b))
	for i := 0; i < n; i++ {
		if !b[i].isConst() {
			allc = false
			break
		}
	}
	if allc {
		buf := make([]byte, n)
		for i := range buf {
			buf[i] = byte(b[i].val)
		}
		r, sz := utf8.DecodeRune(buf)
		return BV(uint64(uint32(r)), 32), sz
	}
	c0 := b[0]
	if it.decideT(fr, it.Cmp(OUlt, c0, BV(0x80, 8))) {
		return it.Zext(c0, 32), 1
	}
	in := func(c *Term, lo, hi uint64) *Term {
		return it.And(it.Cmp(OUle, BV(lo, 8), c), it.Cmp(OUle, c, BV(hi, 8)))
	}
	low6 := func(c *Term) *Term { return it.Zext(it.Bin(OBvAnd, c, BV(0x3f, 8)), 32) }
	or := func(x, y *Term) *Term { return it.Bin(OBvOr, x, y) }
	shl := func(x *Term, n uint64) *Term { return it.Bin(OShl, x, BV(n, 32)) }
	bad := BV(utf8.RuneError, 32)
	if len(b) >= 2 {
		two := it.And(in(c0, 0xC2, 0xDF), in(b[1], 0x80, 0xBF))
		if it.decideT(fr, two) {
			return or(shl(it.Zext(it.Bin(OBvAnd, c0, BV(0x1f, 8)), 32), 6), low6(b[1])), 2
		}
	}
	if len(b) >= 3 {
		second := it.Or(it.And(it.Eq(c0, BV(0xE0, 8)), in(b[1], 0xA0, 0xBF)),
			it.Or(it.And(it.Eq(c0, BV(0xED, 8)), in(b[1], 0x80, 0x9F)),
				it.And(it.And(in(c0, 0xE1, 0xEF), it.Not(it.Eq(c0, BV(0xED, 8)))), in(b[1], 0x80, 0xBF))))
		three := it.And(second, in(b[2], 0x80, 0xBF))
		if it.decideT(fr, three) {
			return or(shl(it.Zext(it.Bin(OBvAnd, c0, BV(0x0f, 8)), 32), 12), or(shl(low6(b[1]), 6), low6(b[2]))), 3
		}
	}
	if len(b) >= 4 {
		second := it.Or(it.And(it.Eq(c0, BV(0xF0, 8)), in(b[1], 0x90, 0xBF)),
			it.Or(it.And(it.Eq(c0, BV(0xF4, 8)), in(b[1], 0x80, 0x8F)),
				it.And(in(c0, 0xF1, 0xF3), in(b[1], 0x80, 0xBF))))
		four := it.And(second, it.And(in(b[2], 0x80, 0xBF), in(b[3], 0x80, 0xBF)))
		if it.decideT(fr, four) {
			return or(or(shl(it.Zext(it.Bin(OBvAnd, c0, BV(0x07, 8)), 32), 18), shl(low6(b[1]), 12)), or(shl(low6(b[2]), 6), low6(b[3]))), 4
		}
	}
	return bad, 1
}

// ---- type assertions ----

func (it *Interp) implements(t, i types.Type) bool {
	k := implKey{t, i}
	if r, ok := it.implC[k]; ok {
		return r
	}
	it.ld.mu.Lock()
	r := types.Implements(t, i.Underlying().(*types.Interface))
	it.ld.mu.Unlock()
	it.implC[k] = r
	return r
}

func (it *Interp) typeAssert(fr *frame, in *ssa.TypeAssert, x Value) Value {
	ifc, ok := x.(Iface)
	if !ok {
		poison(x, fr)
	}
	var v Value
	okb := false
	if ifc.t != nil {
		if types.IsInterface(in.AssertedType) {
			if it.implements(ifc.t, in.AssertedType) {
				v, okb = ifc, true
			}
		} else if types.Identical(ifc.t, in.AssertedType) {
			v, okb = copyVal(ifc.v), true
		}
	}
	if !okb {
		if !in.CommaOk {
			dyn := "nil"
			if ifc.t != nil {
				dyn = ifc.t.String()
			}
			it.rtPanic(fr, fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, in.AssertedType))
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{v, BoolT(okb)}
	}
	return v
}

// ---- builtins ----

func (it *Interp) callBuiltin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return it.strLen(fr, x)
		case Slice:
			return Int64T(int64(len(x)))
		case Array:
			return Int64T(int64(len(x)))
		case *Value:
			return Int64T(int64(len((*x).(Array))))
		case *Map:
			if x == nil {
				return Int64T(0)
			}
			if it.P.racy {
				it.raceRead(fr, &x.loc)
			}
			return Int64T(int64(x.live))
		case *Chan:
			if x == nil {
				return Int64T(0)
			}
			return Int64T(int64(len(x.buf)))
		}
		poison(args[0], fr)
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return Int64T(int64(cap(x)))
		case Array:
			return Int64T(int64(len(x)))
		case *Value:
			return Int64T(int64(len((*x).(Array))))
		case *Chan:
			if x == nil {
				return Int64T(0)
			}
			return Int64T(int64(x.cap))
		}
		poison(args[0], fr)
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		s, ok := args[0].(Slice)
		if !ok {
			poison(args[0], fr)
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SymStr:
			for _, t := range it.bytesOf(fr, y) {
				add = append(add, t)
			}
		default:
			poison(args[1], fr)
		}
		if it.P.racy {
			for i := range add {
				it.raceRead(fr, &add[i])
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			r := s[:n]
			tmp := make([]Value, len(add))
			for i := range add {
				tmp[i] = copyVal(add[i])
			}
			for i := range tmp {
				if it.P.racy {
					it.raceWrite(fr, &r[len(s)+i])
				}
				it.setCell(&r[len(s)+i], tmp[i])
			}
			return r
		}
		nc := n
		if c != nil {
			nc = growCap(cap(s), n, sizeofElem(c.Args[0].Type().Underlying().(*types.Slice).Elem()))
		}
		r := make(Slice, n, nc)
		copy(r, s)
		for i := range s {
			if it.P.racy {
				it.raceRead(fr, &s[i])
			}
			r[i] = copyVal(s[i])
		}
		for i := range add {
			r[len(s)+i] = copyVal(add[i])
		}
		if nc > n {
			var z Value
			if c != nil {
				z = zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
			} else {
				z = zeroLike(r[0])
			}
			full := r[:nc]
			for i := n; i < nc; i++ {
				full[i] = copyVal(z)
			}
		}
		return r
	case "copy":
		d, ok := args[0].(Slice)
		if !ok {
			poison(args[0], fr)
		}
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		case string, *SymStr:
			for _, t := range it.bytesOf(fr, y) {
				src = append(src, t)
			}
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			if it.P.racy {
				it.raceRead(fr, &src[i])
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if it.P.racy {
				it.raceWrite(fr, &d[i])
			}
			it.storeInto(&d[i], tmp[i])
		}
		return Int64T(int64(n))
	case "delete":
		m := args[0].(*Map)
		if m == nil {
			return nil
		}
		var mt *types.Map
		if c != nil {
			mt = c.Args[0].Type().Underlying().(*types.Map)
		} else {
			mt = m.typ
		}
		it.mapDelete(fr, m, args[1], mt)
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, e := range x.ents {
					if !e.dead {
						it.killEnt(x, e)
					}
				}
			}
		case Slice:
			for i := range x {
				it.storeInto(&x[i], zeroLike(x[i]))
			}
		}
		return nil
	case "close":
		it.chanClose(fr, args[0].(*Chan))
		return nil
	case "panic":
		panic(targetPanic{args[0], fr.where()})
	case "recover":
		// fr is the frame executing recover's caller
		return it.recover_(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r.(*Term), a.(*Term)
			_, signed, _ := sortOf(c.Args[0].Type().Underlying().(*types.Basic))
			var lt *Term
			if x.sort == SF64 {
				// NaN handling: result NaN if any NaN
				lt = it.FCmp(OFLt, x, y)
				nan := it.Or(it.FIsNaN(x), it.FIsNaN(y))
				var m *Term
				if b.Name() == "min" {
					m = it.Ite(lt, x, y)
				} else {
					m = it.Ite(lt, y, x)
				}
				r = it.Ite(nan, F64(math.NaN()), m)
				continue
			}
			if signed {
				lt = it.Cmp(OSlt, x, y)
			} else {
				lt = it.Cmp(OUlt, x, y)
			}
			if b.Name() == "min" {
				r = it.Ite(lt, x, y)
			} else {
				r = it.Ite(lt, y, x)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			it.rtPanic(fr, "value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return fr
	case "String": // unsafe.String
		n := int(it.concInt(fr, args[1], "unsafe.String"))
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case UPtr:
			if s, ok := p.v.(Slice); ok {
				return it.convert(fr, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String], s[:n])
			}
		case *dataPtr:
			if p.str != nil {
				sv := it.strForm(fr, p.str)
				if cs, ok := sv.(string); ok {
					return cs[:n]
				}
				return mkStr(sv.(*SymStr).b[:n])
			}
			return it.convert(fr, types.NewSlice(types.Typ[types.Byte]), types.Typ[types.String], p.s[:n])
		}
		unsupported("unsafe.String at %s", fr.where())
	case "SliceData":
		s := args[0].(Slice)
		return &dataPtr{s: s}
	case "StringData":
		return &dataPtr{str: args[0]}
	case "Slice":
		if p, ok := args[0].(*dataPtr); ok {
			n := int(it.concInt(fr, args[1], "unsafe.Slice"))
			if p.str != nil {
				bs := it.bytesOf(fr, p.str)[:n]
				r := make(Slice, n)
				for i := range bs {
					r[i] = bs[i]
				}
				return r
			}
			return p.s[:n:n]
		}
		unsupported("unsafe.Slice at %s", fr.where())
	}
	unsupported("builtin %s at %s", b.Name(), fr.where())
	return nil
}

type dataPtr struct {
	s   Slice
	str Value
}

func zeroLike(v Value) Value {
	switch v := v.(type) {
	case *Term:
		if v.sort == SF64 {
			return F64(0)
		}
		if v.sort == SBool {
			return FalseT
		}
		return BV(0, v.sort)
	case string, *SymStr:
		return ""
	case *Value:
		return (*Value)(nil)
	case Slice:
		return Slice(nil)
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = zeroLike(v[i])
		}
		return r
	case *Map:
		return (*Map)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *Closure:
		return (*Closure)(nil)
	case Iface:
		return Iface{}
	}
	return v
}

var gcSizes = types.SizesFor("gc", "amd64")

func sizeofElem(t types.Type) int { return int(gcSizes.Sizeof(t)) }

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192}

// growCap follows the runtime's growth policy.
func growCap(old, n, sz int) int {
	c := old
	if n > 2*old {
		c = n
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < n {
			c += (c + 3*256) / 4
		}
	}
	if sz == 0 {
		return c
	}
	bytes := c * sz
	for _, k := range sizeClasses {
		if bytes <= k {
			return k / sz
		}
	}
	return (bytes + 8191) / 8192 * 8192 / sz
}

func (it *Interp) recover_(fr *frame) Value {
	// recover is called by function fr.info.fn, which must have been called
	// directly by a deferring frame that is panicking.
	if fr.caller != nil && fr.caller.panicking {
		if tp, ok := fr.caller.panic.(targetPanic); ok {
			fr.caller.panicking = false
			fr.caller.panic = nil
			return tp.v
		}
	}
	return Iface{}
}

// ---- maps ----

func (it *Interp) newMap(t *types.Map) *Map {
	m := &Map{idx: map[string]*ment{}, epoch: it.epoch, typ: t}
	if it.initing > 0 {
		m.epoch = 0
	}
	return m
}

func (it *Interp) mapLog(m *Map, undo func()) {
	if it.initing == 0 && m.epoch != it.epoch {
		it.trail = append(it.trail, trailEnt{fn: undo})
	}
}

// mapFind returns the entry equal to k, forking if equality is undetermined.
func (it *Interp) mapFind(fr *frame, m *Map, k Value, mt *types.Map) *ment {
	if ifc, ok := k.(Iface); ok && ifc.t != nil && !types.Comparable(ifc.t) {
		it.rtPanic(fr, "hash of unhashable type "+ifc.t.String())
	}
	key, conc := mapKey(k)
	if conc {
		if e, ok := m.idx[key]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			if _, c := mapKey(e.k); c {
				continue
			}
			if it.decideT(fr, it.equal(fr, mt.Key(), e.k, k)) {
				return e
			}
		}
		return nil
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if it.decideT(fr, it.equal(fr, mt.Key(), e.k, k)) {
			return e
		}
	}
	return nil
}

func (it *Interp) mapLookup(fr *frame, m *Map, k Value, mt *types.Map) (Value, *Term) {
	if m == nil {
		return zero(mt.Elem()), FalseT
	}
	if it.P.racy {
		it.raceRead(fr, &m.loc)
	}
	key, conc := mapKey(k)
	if conc && m.nsym == 0 {
		if e, ok := m.idx[key]; ok {
			return copyVal(e.v), TrueT
		}
		return zero(mt.Elem()), FalseT
	}
	if !conc && m.live > 0 && m.live <= 300 {
		// merge over entries when values permit
		res := zero(mt.Elem())
		ok := FalseT
		good := true
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			c := it.equal(fr, mt.Key(), e.k, k)
			if c == FalseT {
				continue
			}
			r, mok := it.merge(c, e.v, res)
			if !mok {
				good = false
				break
			}
			res = r
			ok = it.Or(c, ok)
		}
		if good {
			return res, ok
		}
	}
	e := it.mapFind(fr, m, k, mt)
	if e == nil {
		return zero(mt.Elem()), FalseT
	}
	return copyVal(e.v), TrueT
}

func (it *Interp) mapUpdate(fr *frame, m *Map, k, v Value, mt *types.Map) {
	if it.P.racy {
		it.raceWrite(fr, &m.loc)
	}
	if e := it.mapFind(fr, m, k, mt); e != nil {
		old := e.v
		it.mapLog(m, func() { e.v = old })
		e.v = v
		return
	}
	e := &ment{k: copyVal(k), v: v}
	key, conc := mapKey(k)
	m.ents = append(m.ents, e)
	m.live++
	if conc {
		m.idx[key] = e
	} else {
		m.nsym++
	}
	it.mapLog(m, func() {
		for i := len(m.ents) - 1; i >= 0; i-- {
			if m.ents[i] == e {
				m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
				break
			}
		}
		m.live--
		if conc {
			delete(m.idx, key)
		} else {
			m.nsym--
		}
	})
	if len(m.ents) > 32 && m.live < len(m.ents)/2 && m.epoch == it.epoch {
		var n []*ment
		for _, e := range m.ents {
			if !e.dead {
				n = append(n, e)
			}
		}
		m.ents = n
	}
}

func (it *Interp) killEnt(m *Map, e *ment) {
	key, conc := mapKey(e.k)
	e.dead = true
	m.live--
	if conc {
		delete(m.idx, key)
	} else {
		m.nsym--
	}
	it.mapLog(m, func() {
		e.dead = false
		m.live++
		if conc {
			m.idx[key] = e
		} else {
			m.nsym++
		}
	})
}

func (it *Interp) mapDelete(fr *frame, m *Map, k Value, mt *types.Map) {
	if it.P.racy {
		it.raceWrite(fr, &m.loc)
	}
	if e := it.mapFind(fr, m, k, mt); e != nil {
		it.killEnt(m, e)
	}
}

func (it *Interp) rangeIter(fr *frame, x Value, t types.Type) *Iter {
	switch x := x.(type) {
	case *Map:
		if x == nil {
			return &Iter{}
		}
		if it.P.racy {
			it.raceRead(fr, &x.loc)
		}
		return &Iter{m: x}
	case string, *SymStr:
		return &Iter{str: it.strForm(fr, x)}
	}
	poison(x, fr)
	return nil
}

func (it *Interp) next(fr *frame, in *ssa.Next, iter *Iter) Value {
	if in.IsString {
		if s, ok := iter.str.(string); ok {
			if iter.spos >= len(s) {
				return Tuple{FalseT, Int64T(0), BV(0, 32)}
			}
			r, n := utf8.DecodeRuneInString(s[iter.spos:])
			p := iter.spos
			iter.spos += n
			return Tuple{TrueT, Int64T(int64(p)), BV(uint64(uint32(r)), 32)}
		}
		b := iter.str.(*SymStr).b
		if iter.spos >= len(b) {
			return Tuple{FalseT, Int64T(0), BV(0, 32)}
		}
		r, n := it.decodeRune(fr, b[iter.spos:])
		p := iter.spos
		iter.spos += n
		return Tuple{TrueT, Int64T(int64(p)), r}
	}
	tt := in.Type().(*types.Tuple)
	end := func() Value {
		k, v := Value(nil), Value(nil)
		if tt.At(1).Type() != types.Typ[types.Invalid] {
			k = zero(tt.At(1).Type())
		}
		if tt.At(2).Type() != types.Typ[types.Invalid] {
			v = zero(tt.At(2).Type())
		}
		return Tuple{FalseT, k, v}
	}
	m := iter.m
	if m == nil {
		return end()
	}
	if it.P.racy {
		it.raceRead(fr, &m.loc)
	}
	if it.P.mapOrder > 0 && m.live <= it.P.mapOrder && it.initing == 0 && (fr.info.inRepo || it.P.mapOrderAll) {
		var cand []*ment
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			seen := false
			for _, s := range iter.ents {
				if s == e {
					seen = true
					break
				}
			}
			if !seen {
				cand = append(cand, e)
			}
		}
		if len(cand) == 0 {
			return end()
		}
		k := 0
		if len(cand) > 1 {
			k = it.choose(fr, len(cand), "maporder")
		}
		e := cand[k]
		iter.ents = append(iter.ents, e)
		return Tuple{TrueT, copyVal(e.k), copyVal(e.v)}
	}
	for iter.pos < len(m.ents) {
		e := m.ents[iter.pos]
		iter.pos++
		if e.dead {
			continue
		}
		return Tuple{TrueT, copyVal(e.k), copyVal(e.v)}
	}
	return end()
}
