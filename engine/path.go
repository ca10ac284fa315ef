package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"sync"
	"sync/atomic"
	"time"
)

const (
	dBranch uint8 = iota
	dConc
	dChoice
)

type dec struct {
	kind    uint8
	taken   bool
	implied bool
	val     uint64
}

type input struct {
	name string
	kind string
	t    *Term
	bs   []*Term
	val  int64
}

type obs struct {
	label string
	v     Value
}

// Path is one symbolic execution path.
type Path struct {
	it       *Interp
	initPath bool
	prefix   []dec
	pos      int
	decs     []dec
	ev       Evaluator
	pc       []*Term
	asserted int
	inSolver bool
	known    map[*Term]bool
	steps    int64
	maxSteps int64
	merges   int64
	inputs   []input
	obs      []obs
	reached  []string
	unknowns int
	unkWhere string
	ncheck   int // assertions discharged on this path (new ones)
	nassert  int
	nconcr   int

	procs     []*Proc
	cur       *Proc
	racy      bool
	noRace    bool
	preempt   int
	preBound  int
	locks     map[*Value]*lockState
	wgs       map[*Value]*wgState
	side      map[*Value]any
	shadow    map[*Value]*shadowCell
	fatal     any
	killing   bool
	timers    []*Chan
	timerMax  int
	noSample  bool // not one of those that are also run natively
	simulate  bool
	vtime     int64 // nanoseconds, when simulating
	clockSlow int64
	clock     *Term
	sched     []string

	mapOrder    int
	mapOrderAll bool
	deadline    time.Time
	ctx         map[string]Value
	hangIsBug   bool
}

type workItem struct {
	prefix []dec
	model  Model
	depth  int
}

func (P *Path) setModel(m Model) {
	P.it.evalEpoch++
	P.ev = Evaluator{m: m, epoch: P.it.evalEpoch}
}

func (P *Path) note(c *Term, v bool) {
	P.known[c] = v
	P.known[P.it.Not(c)] = !v
}

func (P *Path) addPC(c *Term) {
	if c == TrueT {
		return
	}
	P.pc = append(P.pc, c)
	P.note(c, true)
}

// check asks the solver for PC ∧ extra.
func (it *Interp) check(fr *frame, extra *Term) (Result, Model) {
	P := it.P
	if !P.inSolver || !it.solver.started {
		it.solver.NewPath()
		P.inSolver = true
		P.asserted = 0
	}
	for ; P.asserted < len(P.pc); P.asserted++ {
		it.solver.Assert(P.pc[P.asserted])
	}
	if slowLog {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 300*time.Millisecond {
				w := fr.where()
				fmt.Fprintf(os.Stderr, "slow query %.1fs at %s: %v\n", d.Seconds(), w, extra)
			}
		}()
	}
	return it.solver.Check(extra, it.vars)
}

var slowLog = os.Getenv("VE_SLOW") != ""

func (it *Interp) decide(fr *frame, c *Term) bool {
	P := it.P
	if P.initPath {
		unsupported("symbolic branch in initialiser")
	}
	if v, ok := P.known[c]; ok {
		return v
	}
	if P.pos < len(P.prefix) {
		d := P.prefix[P.pos]
		P.pos++
		if d.kind != dBranch {
			panic(engineErr(fmt.Sprintf("replay divergence: expected branch, have kind %d at %s", d.kind, fr.where())))
		}
		P.decs = append(P.decs, d)
		cc := c
		if !d.taken {
			cc = it.Not(c)
		}
		if d.implied {
			P.note(cc, true)
		} else {
			P.addPC(cc)
		}
		return d.taken
	}
	it.budget()
	v := P.ev.Eval(c) == 1
	mine, other := c, it.Not(c)
	if !v {
		mine, other = other, mine
	}
	res, m := it.check(fr, other)
	switch res {
	case Sat:
		it.enqueue(dec{kind: dBranch, taken: !v}, m)
	case UnknownR:
		P.unknowns++
		P.unkWhere = fr.where()
	}
	P.decs = append(P.decs, dec{kind: dBranch, taken: v, implied: res == Unsat})
	if res == Unsat {
		P.note(mine, true)
	} else {
		P.addPC(mine)
	}
	return v
}

func (it *Interp) enqueue(d dec, m Model) {
	P := it.P
	np := make([]dec, len(P.decs)+1)
	copy(np, P.decs)
	np[len(P.decs)] = d
	it.job.push(&workItem{prefix: np, model: m, depth: len(np)})
}

func (it *Interp) budget() {
	if it.job.expired() {
		panic(pathEnd{"budget", "time budget used up"})
	}
}

// choose makes an unconstrained n-way nondeterministic choice.
func (it *Interp) choose(fr *frame, n int, what string) int {
	P := it.P
	if n <= 1 {
		return 0
	}
	if P.initPath {
		return 0
	}
	if P.pos < len(P.prefix) {
		d := P.prefix[P.pos]
		P.pos++
		if d.kind != dChoice || int(d.val) >= n {
			panic(engineErr(fmt.Sprintf("replay divergence: expected choice(%s), have kind %d at %s", what, d.kind, fr.where())))
		}
		P.decs = append(P.decs, d)
		return int(d.val)
	}
	it.budget()
	for k := n - 1; k >= 1; k-- {
		it.enqueue(dec{kind: dChoice, val: uint64(k)}, P.ev.m)
	}
	P.decs = append(P.decs, dec{kind: dChoice, val: 0})
	return 0
}

// concInt forks over the feasible values of a term.
func (it *Interp) concInt(fr *frame, v Value, what string) int64 {
	t, ok := v.(*Term)
	if !ok {
		poison(v, fr)
	}
	if t.isConst() {
		return sext64(t.val, t.sort)
	}
	P := it.P
	if P.initPath {
		unsupported("symbolic value in initialiser")
	}
	for n := 0; ; n++ {
		if n > 4096 {
			unsupported("too many values for %s at %s", what, fr.where())
		}
		if P.pos < len(P.prefix) {
			d := P.prefix[P.pos]
			P.pos++
			if d.kind != dConc {
				panic(engineErr(fmt.Sprintf("replay divergence: expected conc(%s), have kind %d at %s", what, d.kind, fr.where())))
			}
			P.decs = append(P.decs, d)
			c := it.Eq(t, BV(d.val, t.sort))
			if d.taken {
				if d.implied {
					P.note(c, true)
				} else {
					P.addPC(c)
				}
				return sext64(d.val, t.sort)
			}
			P.addPC(it.Not(c))
			continue
		}
		it.budget()
		P.nconcr++
		k := P.ev.Eval(t)
		c := it.Eq(t, BV(k, t.sort))
		if b, ok := P.known[c]; ok && b {
			// Recorded like any other decision: a replay of this prefix reads
			// one decision here.
			P.decs = append(P.decs, dec{kind: dConc, val: k, taken: true, implied: true})
			return sext64(k, t.sort)
		}
		res, m := it.check(fr, it.Not(c))
		switch res {
		case Sat:
			it.enqueue(dec{kind: dConc, val: k, taken: false}, m)
		case UnknownR:
			P.unknowns++
			P.unkWhere = fr.where()
		}
		P.decs = append(P.decs, dec{kind: dConc, val: k, taken: true, implied: res == Unsat})
		if res == Unsat {
			P.note(c, true)
		} else {
			P.addPC(c)
		}
		return sext64(k, t.sort)
	}
}

func (it *Interp) assume(fr *frame, c *Term) {
	P := it.P
	if c.isConst() {
		if c.val == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if v, ok := P.known[c]; ok {
		if !v {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	if P.ev.Eval(c) == 1 {
		P.addPC(c)
		return
	}
	if P.pos < len(P.prefix) {
		// the inherited model satisfies the prefix, so this cannot happen
		// unless the model came through an unknown
		panic(engineErr("assumption false in replayed prefix at " + fr.where()))
	}
	it.budget()
	res, m := it.check(fr, c)
	switch res {
	case Sat:
		P.addPC(c)
		P.setModel(m)
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	default:
		P.unknowns++
		P.unkWhere = fr.where()
		panic(pathEnd{"unknown", "assumption undecided at " + fr.where()})
	}
}

func (it *Interp) assertProp(fr *frame, c *Term, msg string) {
	P := it.P
	P.nassert++
	if c == TrueT {
		if P.pos >= len(P.prefix) {
			P.ncheck++
			it.job.assertSeen(msg, true)
		}
		return
	}
	if P.pos < len(P.prefix) {
		if c.isConst() {
			panic(pathEnd{"infeasible", "after violated assertion"})
		}
		// already decided by the parent path; continue under it
		P.addPCQuiet(c)
		return
	}
	it.budget()
	P.ncheck++
	if !c.isConst() {
		if v, ok := P.known[c]; ok && v {
			it.job.assertSeen(msg, true)
			return
		}
	}
	if P.ev.Eval(c) == 0 {
		it.violation(fr, "assert", msg, P.ev.m)
		if c.isConst() {
			panic(pathEnd{"violated", msg})
		}
		res, m := it.check(fr, c)
		if res != Sat {
			panic(pathEnd{"violated", msg})
		}
		P.addPC(c)
		P.setModel(m)
		return
	}
	res, m := it.check(fr, it.Not(c))
	switch res {
	case Sat:
		it.violation(fr, "assert", msg, m)
	case Unsat:
		it.job.assertSeen(msg, false)
	default:
		P.unknowns++
		P.unkWhere = fr.where() + " assertion " + msg
	}
	// continue under the assertion
	P.addPCQuiet(c)
}

// addPCQuiet assumes a condition that is implied (or already reported).
func (P *Path) addPCQuiet(c *Term) { P.addPC(c) }

// ---- violations ----

type Violation struct {
	Kind     string
	Msg      string
	Where    string
	Inputs   []InputJSON
	Harness  string
	Sched    []string
	Replayed string
	Known    bool
}

type InputJSON struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Val  string   `json:"val"`
	Dbg  string   `json:"dbg,omitempty"`
	Bs   []uint64 `json:"bs,omitempty"`
}

func (it *Interp) inputsUnder(m Model) []InputJSON {
	it.evalEpoch++
	ev := Evaluator{m: m, epoch: it.evalEpoch}
	// restore epoch of the path's evaluator: memo tags differ so recompute
	defer func() { it.P.setModel(it.P.ev.m) }()
	var out []InputJSON
	for _, in := range it.P.inputs {
		j := InputJSON{Name: in.name, Kind: in.kind}
		switch {
		case in.bs != nil:
			for _, b := range in.bs {
				j.Bs = append(j.Bs, ev.Eval(b))
			}
			buf := make([]byte, len(in.bs))
			for i := range buf {
				buf[i] = byte(j.Bs[i])
			}
			j.Val = fmt.Sprintf("%q", buf)
		case in.t != nil:
			v := ev.Eval(in.t)
			if in.t.sort == SF64 {
				j.Val = fmt.Sprint(v)
				j.Dbg = fmt.Sprint(fv(v))
			} else if in.kind == "uint64" {
				j.Val = fmt.Sprint(v)
			} else {
				j.Val = fmt.Sprint(sext64(v, in.t.sort))
				if in.t.sort == SBool || in.kind == "byte" {
					j.Val = fmt.Sprint(v)
				}
			}
		default:
			j.Val = fmt.Sprint(in.val)
		}
		out = append(out, j)
	}
	return out
}

func (it *Interp) violation(fr *frame, kind, msg string, m Model) {
	where := ""
	if fr != nil {
		where = fr.where()
	}
	v := &Violation{Kind: kind, Msg: msg, Where: where, Inputs: it.inputsUnder(m), Sched: append([]string(nil), it.P.sched...)}
	it.job.addViolation(v)
}

// ---- job: exploration of one harness ----

type Job struct {
	name      string
	mu        sync.Mutex
	cond      *sync.Cond
	stack     []*workItem
	active    int
	closed    bool
	deadline  time.Time
	budgetHit bool
	memHigh   atomic.Bool

	Paths      int64
	PathsDone  int64
	Infeasible int64
	Steps      int64
	Merges     int64
	Asserts    int64
	AssertSeen map[string]int64
	AssertUns  map[string]int64
	Reached    map[string]int64
	Kinds      map[string]int64
	Unsup      map[string]int64
	Unknowns   int64
	UnkWhere   map[string]int64
	Violations []*Violation
	vioKeys    map[string]int
	Samples    []*PathSample
	maxPaths   int64
	Encoded    map[string]bool
	Branches   int64
	Bounds     map[string]int64
	Wall       float64
}

type PathSample struct {
	Inputs []InputJSON
	Obs    []string
	Kind   string
}

func newJob(name string, budget time.Duration) *Job {
	j := &Job{name: name, AssertSeen: map[string]int64{}, AssertUns: map[string]int64{}, Reached: map[string]int64{},
		Kinds: map[string]int64{}, Unsup: map[string]int64{}, UnkWhere: map[string]int64{}, vioKeys: map[string]int{}, Encoded: map[string]bool{}}
	j.cond = sync.NewCond(&j.mu)
	j.deadline = time.Now().Add(budget)
	return j
}

func (j *Job) push(w *workItem) {
	j.mu.Lock()
	j.stack = append(j.stack, w)
	j.cond.Signal()
	j.mu.Unlock()
}

func (j *Job) expired() bool { return j.memHigh.Load() || time.Now().After(j.deadline) }

// memLimit is how much heap one harness may hold before its exploration ends
// as if its time were used up.
const memLimit = 12 << 30

func (j *Job) watchMemory(stop chan struct{}) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-stop:
			return
		case <-time.After(200 * time.Millisecond):
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > memLimit {
			runtime.GC()
			metrics.Read(sample)
			if sample[0].Value.Uint64() > memLimit {
				j.memHigh.Store(true)
				return
			}
		}
	}
}

func (j *Job) pop() *workItem {
	j.mu.Lock()
	defer j.mu.Unlock()
	for {
		if j.closed {
			return nil
		}
		if len(j.stack) > 0 {
			if j.expired() || (j.maxPaths > 0 && j.Paths >= j.maxPaths) {
				j.budgetHit = true
				j.closed = true
				j.cond.Broadcast()
				return nil
			}
			w := j.stack[len(j.stack)-1]
			j.stack = j.stack[:len(j.stack)-1]
			j.active++
			j.Paths++
			return w
		}
		if j.active == 0 {
			j.closed = true
			j.cond.Broadcast()
			return nil
		}
		j.cond.Wait()
	}
}

func (j *Job) doneItem() {
	j.mu.Lock()
	j.active--
	if j.active == 0 && len(j.stack) == 0 {
		j.closed = true
	}
	j.cond.Broadcast()
	j.mu.Unlock()
}

func (j *Job) assertSeen(msg string, trivially bool) {
	j.mu.Lock()
	j.AssertSeen[msg]++
	if !trivially {
		j.AssertUns[msg]++
	}
	j.mu.Unlock()
}

func (j *Job) addViolation(v *Violation) {
	j.mu.Lock()
	defer j.mu.Unlock()
	v.Harness = j.name
	key := v.Kind + "|" + v.Msg
	if v.Kind != "assert" {
		key += "|" + v.Where
	}
	j.vioKeys[key]++
	if j.vioKeys[key] <= 12 {
		j.Violations = append(j.Violations, v)
	}
}
