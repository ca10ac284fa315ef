package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Config struct {
	tier      string
	seed      int64
	noMerge   bool
	workers   int
	maxSteps  int64
	qTimeout  time.Duration
	hardLim   time.Duration
	verbose   bool
	keepPaths int
}

func (j *Job) setBound(name string, v int64) {
	j.mu.Lock()
	if j.Bounds == nil {
		j.Bounds = map[string]int64{}
	}
	j.Bounds[name] = v
	j.mu.Unlock()
}

func newInterp(ld *Loaded, cfg *Config) *Interp {
	return &Interp{
		Builder: NewBuilder(), ld: ld, prog: ld.prog, solver: &Solver{timeout: cfg.qTimeout, hardLim: cfg.hardLim},
		globals: map[*ssa.Global]*Value{}, infos: map[*ssa.Function]*fnInfo{}, bodies: map[*ssa.Function]*fnInfo{},
		inited: map[*ssa.Package]int{}, encoded: map[*ssa.Function]bool{}, methods: map[methKey]*ssa.Function{},
		cfg: cfg, implC: map[implKey]bool{},
	}
}

// runPath executes one path to its end.
func (it *Interp) runPath(fn *ssa.Function, w *workItem) {
	j := it.job
	it.epoch++
	it.Builder.Reset()
	P := &Path{it: it, prefix: w.prefix, known: map[*Term]bool{}, maxSteps: it.cfg.maxSteps,
		locks: map[*Value]*lockState{}, wgs: map[*Value]*wgState{}, side: map[*Value]any{}, preBound: 2, timerMax: 2}
	it.P = P
	P.setModel(w.model)
	pr := &Proc{it: it, resume: make(chan struct{})}
	pr.vc = vclock{1}
	P.procs = []*Proc{pr}
	P.cur = pr
	end := pathEnd{"done", ""}
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch r := r.(type) {
				case pathEnd:
					end = r
				case targetPanic:
					end = pathEnd{"panic", it.panicText(r)}
					it.violationAt("panic", "panic: "+it.panicText(r), r.pos)
				default:
					panic(r)
				}
			}
		}()
		fr := &frame{it: it, pr: pr, info: &fnInfo{name: "harness"}}
		it.callFn(fr, fn, nil, nil)
	}()
	switch end.kind {
	case "deadlock":
		it.violationAt("deadlock", end.msg, "")
	case "fatal":
		it.violationAt("panic", "fatal error: "+end.msg, end.msg)
	case "steps":
		if P.hangIsBug {
			it.violationAt("hang", "does not terminate within the step bound", end.msg)
		}
	}
	it.killProcs()
	// record
	ok := end.kind == "done"
	var sample *PathSample
	if ok {
		j.mu.Lock()
		want := len(j.Samples) < 400 && (j.PathsDone < 24 || j.PathsDone%17 == 0)
		j.mu.Unlock()
		if want && !P.noSample {
			sample = &PathSample{Inputs: it.inputsUnder(P.ev.m), Kind: end.kind}
			for _, o := range P.obs {
				sample.Obs = append(sample.Obs, o.label+"="+it.renderObs(o.v))
			}
		}
	}
	it.undoTrail()
	j.mu.Lock()
	j.Steps += P.steps
	j.Merges += P.merges
	j.Kinds[end.kind]++
	j.Asserts += int64(P.ncheck)
	j.Unknowns += int64(P.unknowns)
	j.Branches += int64(len(P.decs) - min(len(P.prefix), len(P.decs)))
	if P.unknowns > 0 {
		j.UnkWhere[P.unkWhere]++
	}
	if end.kind == "done" {
		j.PathsDone++
	}
	if end.kind == "unsupported" || end.kind == "depth" || end.kind == "exit" || end.kind == "engine" || end.kind == "unknown" || end.kind == "steps" || end.kind == "timerbound" {
		j.Unsup[end.kind+": "+end.msg]++
	}
	if end.kind != "infeasible" {
		for _, r := range P.reached {
			j.Reached[r]++
		}
	}
	if sample != nil {
		j.Samples = append(j.Samples, sample)
	}
	j.mu.Unlock()
	if it.cfg.verbose && end.kind != "done" && end.kind != "infeasible" {
		fmt.Printf("  path end %s: %s\n", end.kind, trunc(end.msg, 400))
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (it *Interp) violationAt(kind, msg, where string) {
	if it.P.pos < len(it.P.prefix) {
		return
	}
	v := &Violation{Kind: kind, Msg: msg, Where: where, Inputs: it.inputsUnder(it.P.ev.m), Sched: append([]string(nil), it.P.sched...)}
	it.job.addViolation(v)
}

func (it *Interp) panicText(tp targetPanic) string {
	ifc, ok := tp.v.(Iface)
	if !ok {
		return describe(tp.v)
	}
	if s, ok := ifc.v.(string); ok {
		if strings.HasSuffix(fmt.Sprint(ifc.t), "runtime.errorString") {
			return "runtime error: " + s
		}
		return s
	}
	if p, ok := ifc.v.(*Value); ok && p != nil {
		if st, ok := (*p).(Struct); ok && len(st) > 0 {
			if s, ok := st[0].(string); ok {
				return s
			}
		}
	}
	return describe(tp.v)
}

// renderObs prints an observed value under the path's model, in the format
// used by the native vsym.Observe.
func (it *Interp) renderObs(v Value) string {
	switch v := v.(type) {
	case *Term:
		x := it.P.ev.Eval(v)
		switch v.sort {
		case SBool:
			if x != 0 {
				return "true"
			}
			return "false"
		case SF64:
			return fmt.Sprintf("f%v", fv(x))
		}
		return fmt.Sprint(mask(x, v.sort))
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		if v.opaque {
			return "*"
		}
		if v.sel != nil {
			return fmt.Sprintf("%q", v.opts[it.P.ev.Eval(v.sel)])
		}
		b := make([]byte, len(v.b))
		for i := range b {
			b[i] = byte(it.P.ev.Eval(v.b[i]))
		}
		return fmt.Sprintf("%q", string(b))
	case Slice:
		parts := make([]string, len(v))
		for i := range v {
			parts[i] = it.renderObs(v[i])
		}
		return "[" + strings.Join(parts, " ") + "]"
	case Struct:
		parts := make([]string, len(v))
		for i := range v {
			parts[i] = it.renderObs(v[i])
		}
		return "{" + strings.Join(parts, " ") + "}"
	case Array:
		return it.renderObs(Slice(v))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return it.renderObs(v.v)
	case *Value:
		if v == nil {
			return "nil"
		}
		return "ptr"
	}
	return "?"
}

// explore runs all paths of a harness within the budget.
func explore(its []*Interp, fn *ssa.Function, name string, budget time.Duration) *Job {
	j := newJob(name, budget)
	j.push(&workItem{})
	stop := make(chan struct{})
	defer close(stop)
	go j.watchMemory(stop)
	var wg sync.WaitGroup
	for _, it := range its {
		it.job = j
		wg.Add(1)
		go func(it *Interp) {
			defer wg.Done()
			for {
				w := j.pop()
				if w == nil {
					return
				}
				it.runPathSafe(fn, w)
				j.doneItem()
			}
		}(it)
	}
	wg.Wait()
	for _, it := range its {
		for f := range it.encoded {
			j.Encoded[f.String()] = true
		}
	}
	return j
}

func (it *Interp) runPathSafe(fn *ssa.Function, w *workItem) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				it.job.mu.Lock()
				it.job.Unsup[pe.kind+": "+pe.msg]++
				it.job.Kinds[pe.kind]++
				it.job.mu.Unlock()
				it.undoTrail()
				it.solver.Close()
				return
			}
			panic(r)
		}
	}()
	it.runPath(fn, w)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
