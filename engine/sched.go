package main

import (
	"fmt"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

type vclock []int

func (v vclock) join(o vclock) vclock {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, x := range o {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}
func (v vclock) clone() vclock { return append(vclock(nil), v...) }
func (v vclock) at(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// Proc is one symbolic goroutine.
type Proc struct {
	wakeAt  int64 // of a sleeping goroutine, when simulating
	it      *Interp
	id      int
	depth   int
	resume  chan struct{}
	exited  chan struct{}
	fn      Value
	args    []Value
	started bool
	done    bool
	ready   func() bool
	blockOn string
	vc      vclock
	name    string
	onTimer bool
	pos     string
}

type lockState struct {
	writer   *Proc
	readers  map[*Proc]int
	nreaders int
	waitW    int
	vc       vclock
	rvc      vclock
}

type wgState struct {
	n  int64
	vc vclock
}

type shadowCell struct {
	wp   int
	wc   int
	wpos string
	r    map[int]int
	rpos map[int]string
}

type waitOp struct {
	pr   *Proc
	val  Value
	ok   bool
	done bool
	pan  bool
	sel  *selState
	idx  int
	vc   vclock
}

type selState struct {
	fired int
	op    *waitOp
}

func (w *waitOp) active() bool {
	if w.done {
		return false
	}
	return w.sel == nil || w.sel.fired < 0
}

func (pr *Proc) tick() {
	for len(pr.vc) <= pr.id {
		pr.vc = append(pr.vc, 0)
	}
	pr.vc[pr.id]++
}

// release returns the clock to hand over at a synchronisation, and starts a
// new epoch: what this goroutine does next is not ordered by it.
func (pr *Proc) release() vclock {
	vc := pr.vc.clone()
	pr.tick()
	return vc
}

func (it *Interp) spawn(fr *frame, fn Value, args []Value) {
	P := it.P
	if P.initPath {
		return // background goroutines of initialisers are ignored
	}
	if cl, ok := fn.(*Closure); ok && cl == nil {
		it.rtPanicPlain(fr, "go of nil func value")
	}
	if !P.racy && !P.noRace {
		P.racy = true
		P.shadow = map[*Value]*shadowCell{}
	}
	p := &Proc{it: it, id: len(P.procs), fn: fn, args: args, resume: make(chan struct{}), exited: make(chan struct{}), pos: it.posOf(fr.pos)}
	p.vc = fr.pr.release()
	p.tick()
	P.procs = append(P.procs, p)
	if len(P.procs) > 400 {
		unsupported("too many goroutines")
	}
	it.schedPoint(fr, "go")
}

func (p *Proc) runnable() bool {
	if p.done {
		return false
	}
	return p.ready == nil || p.ready()
}

func (it *Interp) othersRunnable(self *Proc) []*Proc {
	var r []*Proc
	for _, p := range it.P.procs {
		if p != self && p.runnable() {
			r = append(r, p)
		}
	}
	return r
}

// schedPoint lets the scheduler preempt the current goroutine.
func (it *Interp) schedPoint(fr *frame, why string) {
	P := it.P
	if len(P.procs) < 2 || P.initPath {
		return
	}
	if P.preempt >= P.preBound {
		return
	}
	others := it.othersRunnable(fr.pr)
	if len(others) == 0 {
		return
	}
	k := it.choose(fr, len(others)+1, "schedule")
	if k == 0 {
		return
	}
	P.preempt++
	P.sched = append(P.sched, fmt.Sprintf("g%d preempted before %s at %s, run g%d", fr.pr.id, why, it.posOf(fr.pos), others[k-1].id))
	it.switchTo(fr.pr, others[k-1])
}

func (it *Interp) switchTo(self, to *Proc) {
	it.wake(to)
	it.park(self)
}

func (it *Interp) wake(to *Proc) {
	to.ready = nil
	it.P.cur = to
	if to.id != 0 && !to.started {
		to.started = true
		go it.procMain(to)
		return
	}
	to.resume <- struct{}{}
}

func (it *Interp) park(self *Proc) {
	<-self.resume
	if it.P.killing {
		panic(pathEnd{"killed", ""})
	}
	if self.id == 0 && it.P.fatal != nil {
		panic(it.P.fatal)
	}
	it.P.cur = self
}

func (it *Interp) procMain(p *Proc) {
	P := it.P
	defer close(p.exited)
	var fatal any
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok && (pe.kind == "goexit" || pe.kind == "killed") {
					return
				}
				if tp, ok := r.(targetPanic); ok {
					tp.pos = "[goroutine] " + tp.pos
					r = tp
				}
				fatal = r
			}
		}()
		fr := &frame{it: it, pr: p, info: &fnInfo{name: "go"}}
		it.callValue(fr, p.fn, p.args, false)
	}()
	p.done = true
	if P.killing {
		return
	}
	if fatal != nil {
		P.fatal = fatal
		P.procs[0].resume <- struct{}{}
		return
	}
	// pick a successor
	defer func() {
		if r := recover(); r != nil {
			P.fatal = r
			P.procs[0].resume <- struct{}{}
		}
	}()
	fr := &frame{it: it, pr: p, info: &fnInfo{name: "go-exit"}}
	it.wake(it.pickNext(fr))
}

// pickNext chooses a goroutine to run when the current one cannot continue.
func (it *Interp) pickNext(fr *frame) *Proc {
	P := it.P
	for {
		cand := []*Proc{}
		for _, p := range P.procs {
			if p.runnable() {
				cand = append(cand, p)
			}
		}
		if P.simulate && len(cand) > 0 {
			for i, p := range cand {
				if p.id > fr.pr.id {
					cand = append(append([]*Proc{}, cand[i:]...), cand[:i]...)
					break
				}
			}
			if len(cand) == 1 || P.preempt >= P.preBound {
				return cand[0]
			}
			k := it.choose(fr, len(cand), "schedule")
			if k > 0 {
				P.preempt++
			}
			return cand[k]
		}
		if len(cand) > 0 {
			return cand[it.choose(fr, len(cand), "schedule")]
		}
		if P.simulate && it.passTime(fr) || !P.simulate && it.fireTimer(fr) {
			continue
		}
		for _, p := range P.procs {
			if !p.done && p.onTimer {
				panic(pathEnd{"timerbound", "timer budget used up"})
			}
		}
		desc := ""
		for _, p := range P.procs {
			if !p.done {
				desc += fmt.Sprintf("g%d blocked on %s; ", p.id, p.blockOn)
			}
		}
		panic(pathEnd{"deadlock", "all goroutines are blocked: " + desc})
	}
}

// passTime advances the simulated time to when something happens next.
func (it *Interp) passTime(fr *frame) bool {
	P := it.P
	var next *Chan
	at := int64(-1)
	for _, c := range P.timers {
		t := c.timer
		if !t.stop && t.fires < t.max && (t.period || t.fires == 0) && (at < 0 || t.next < at) {
			next, at = c, t.next
		}
	}
	for _, p := range P.procs {
		if !p.done && p.wakeAt > P.vtime && (at < 0 || p.wakeAt < at) {
			next, at = nil, p.wakeAt
		}
	}
	if at < 0 {
		return false
	}
	P.vtime = at
	if next != nil {
		next.timer.next += next.timer.every
		if len(next.buf) == 0 {
			it.fire(fr, next)
		} else {
			next.timer.fires++
		}
	}
	return true
}

func (it *Interp) fireTimer(fr *frame) bool {
	var cand []*Chan
	for _, c := range it.P.timers {
		if !c.timer.stop && c.timer.fires < c.timer.max && len(c.buf) == 0 && (c.timer.period || c.timer.fires == 0) {
			cand = append(cand, c)
		}
	}
	if len(cand) == 0 {
		return false
	}
	c := cand[it.choose(fr, len(cand), "timer")]
	it.fire(fr, c)
	return true
}

func (it *Interp) fire(fr *frame, c *Chan) {
	c.timer.fires++
	v := it.timeNow(fr)
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.active() {
			w.val, w.ok, w.done = v, true, true
			if w.sel != nil {
				w.sel.fired = w.idx
				w.sel.op = w
			}
			return
		}
	}
	c.buf = append(c.buf, v)
	c.bufvc = append(c.bufvc, nil)
}

// block parks the goroutine until ready() holds.
func (it *Interp) block(fr *frame, what string, ready func() bool) {
	P := it.P
	pr := fr.pr
	for !ready() {
		pr.ready = ready
		pr.blockOn = what + " at " + fr.where()
		next := it.pickNext(fr)
		if next == pr {
			pr.ready = nil
			return
		}
		it.switchTo(pr, next)
	}
	pr.ready = nil
	_ = P
}

// killProcs terminates the goroutines left over at the end of a path.
func (it *Interp) killProcs() {
	P := it.P
	P.killing = true
	for _, p := range P.procs[1:] {
		if !p.started {
			continue
		}
		select {
		case <-p.exited:
			continue
		default:
		}
		select {
		case p.resume <- struct{}{}:
			<-p.exited
		case <-p.exited:
		case <-time.After(20 * time.Second):
			panic("goroutine stuck at path end")
		}
	}
}

// ---- race detection ----

func (it *Interp) raceRead(fr *frame, p *Value) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			it.raceRead(fr, &v[i])
		}
		return
	case Array:
		for i := range v {
			it.raceRead(fr, &v[i])
		}
		return
	}
	P := it.P
	s := P.shadow[p]
	pr := fr.pr
	if s == nil {
		s = &shadowCell{wp: -1}
		P.shadow[p] = s
	}
	if s.wp >= 0 && s.wp != pr.id && s.wc > pr.vc.at(s.wp) {
		it.raceFound(fr, "read", "write", s.wpos)
		return
	}
	if s.r == nil {
		s.r = map[int]int{}
		s.rpos = map[int]string{}
	}
	s.r[pr.id] = pr.vc.at(pr.id)
	s.rpos[pr.id] = it.posOf(fr.pos)
}

func (it *Interp) raceWrite(fr *frame, p *Value) {
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			it.raceWrite(fr, &v[i])
		}
		return
	case Array:
		for i := range v {
			it.raceWrite(fr, &v[i])
		}
		return
	}
	P := it.P
	pr := fr.pr
	s := P.shadow[p]
	if s == nil {
		s = &shadowCell{wp: -1}
		P.shadow[p] = s
	}
	if s.wp >= 0 && s.wp != pr.id && s.wc > pr.vc.at(s.wp) {
		it.raceFound(fr, "write", "write", s.wpos)
	}
	for q, c := range s.r {
		if q != pr.id && c > pr.vc.at(q) {
			it.raceFound(fr, "write", "read", s.rpos[q])
			break
		}
	}
	s.wp, s.wc, s.wpos = pr.id, pr.vc.at(pr.id), it.posOf(fr.pos)
	s.r, s.rpos = nil, nil
}

func (it *Interp) raceFound(fr *frame, a, b, at string) {
	if it.P.pos < len(it.P.prefix) {
		return
	}
	if it.P.killing {
		return
	}
	it.P.racy = false
	it.violation(fr, "race", fmt.Sprintf("data race: %s of g%d conflicts with %s at %s", a, fr.pr.id, b, at), it.P.ev.m)
	panic(pathEnd{"violated", "data race"})
}

// ---- locks ----

func (it *Interp) lockOf(p *Value) *lockState {
	l := it.P.locks[p]
	if l == nil {
		l = &lockState{readers: map[*Proc]int{}}
		it.P.locks[p] = l
	}
	return l
}

func (it *Interp) lock(fr *frame, p *Value, try bool) bool {
	l := it.lockOf(p)
	it.schedPoint(fr, "Lock")
	free := func() bool { return l.writer == nil && l.nreaders == 0 }
	if !free() {
		if try {
			return false
		}
		l.waitW++
		it.block(fr, "Lock", free)
		l.waitW--
	}
	l.writer = fr.pr
	fr.pr.vc = fr.pr.vc.join(l.vc).join(l.rvc)
	return true
}

func (it *Interp) unlock(fr *frame, p *Value) {
	l := it.lockOf(p)
	if l.writer == nil {
		it.fatalErr(fr, "sync: unlock of unlocked mutex")
	}
	l.writer = nil
	l.vc = fr.pr.release()
	it.schedPoint(fr, "after Unlock")
}

func (it *Interp) rlock(fr *frame, p *Value, try bool) bool {
	l := it.lockOf(p)
	it.schedPoint(fr, "RLock")
	free := func() bool { return l.writer == nil && l.waitW == 0 }
	if !free() {
		if try {
			return false
		}
		it.block(fr, "RLock", free)
	}
	l.nreaders++
	l.readers[fr.pr]++
	fr.pr.vc = fr.pr.vc.join(l.vc)
	return true
}

func (it *Interp) runlock(fr *frame, p *Value) {
	l := it.lockOf(p)
	if l.nreaders == 0 {
		it.fatalErr(fr, "sync: RUnlock of unlocked RWMutex")
	}
	l.nreaders--
	l.readers[fr.pr]--
	l.rvc = l.rvc.join(fr.pr.release())
	it.schedPoint(fr, "after RUnlock")
}

// fatalErr is an unrecoverable runtime error ("fatal error: ...").
func (it *Interp) fatalErr(fr *frame, msg string) {
	panic(pathEnd{"fatal", msg + " at " + fr.where()})
}

// ---- channels ----

func (it *Interp) chanSend(fr *frame, chv Value, v Value) {
	ch, ok := chv.(*Chan)
	if !ok {
		poison(chv, fr)
	}
	if ch == nil {
		it.block(fr, "send on nil channel", func() bool { return false })
	}
	it.schedPoint(fr, "send")
	if it.trySend(fr, ch, v) {
		return
	}
	w := &waitOp{pr: fr.pr, val: copyVal(v), vc: fr.pr.release()}
	ch.sendq = append(ch.sendq, w)
	it.block(fr, "channel send", func() bool { return w.done })
	if w.pan {
		it.rtPanicPlain(fr, "send on closed channel")
	}
	fr.pr.vc = fr.pr.vc.join(w.vc)
}

func (it *Interp) trySend(fr *frame, ch *Chan, v Value) bool {
	if ch.closed {
		panic(targetPanic{it.plainErr("send on closed channel"), fr.where()})
	}
	for len(ch.recvq) > 0 {
		w := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if !w.active() {
			continue
		}
		w.val, w.ok, w.done = copyVal(v), true, true
		if w.sel != nil {
			w.sel.fired = w.idx
			w.sel.op = w
		}
		wv := w.vc
		w.vc = fr.pr.release()
		if ch.cap == 0 {
			fr.pr.vc = fr.pr.vc.join(wv)
		} else {
			// Through the buffer: the receiver was waiting for this slot.
			slot := ch.slot(ch.nsend)
			fr.pr.vc = fr.pr.vc.join(*slot)
			*slot = slot.join(wv)
			ch.nsend++
			ch.nrecv++
		}
		return true
	}
	if len(ch.buf) < ch.cap {
		fr.pr.vc = fr.pr.vc.join(*ch.slot(ch.nsend))
		ch.nsend++
		ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], copyVal(v))
		ch.bufvc = append(ch.bufvc[:len(ch.bufvc):len(ch.bufvc)], fr.pr.release())
		return true
	}
	return false
}

func (it *Interp) plainErr(msg string) Value {
	return it.rtErr(msg)
}

func (it *Interp) chanRecv(fr *frame, chv Value, et types.Type) (Value, *Term) {
	ch, ok := chv.(*Chan)
	if !ok {
		poison(chv, fr)
	}
	if ch == nil {
		it.block(fr, "receive on nil channel", func() bool { return false })
	}
	it.schedPoint(fr, "recv")
	if v, okb, did := it.tryRecv(fr, ch, et); did {
		return v, BoolT(okb)
	}
	w := &waitOp{pr: fr.pr, vc: fr.pr.release()}
	ch.recvq = append(ch.recvq, w)
	fr.pr.onTimer = ch.isTimer
	it.block(fr, "channel receive", func() bool { return w.done })
	fr.pr.onTimer = false
	fr.pr.vc = fr.pr.vc.join(w.vc)
	if !w.ok {
		return zero(et), FalseT
	}
	return w.val, TrueT
}

func (it *Interp) tryRecv(fr *frame, ch *Chan, et types.Type) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		fr.pr.vc = fr.pr.vc.join(ch.bufvc[0])
		ch.buf = ch.buf[1:]
		ch.bufvc = ch.bufvc[1:]
		*ch.slot(ch.nrecv) = fr.pr.release()
		ch.nrecv++
		// admit a blocked sender
		for len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			if !w.active() {
				continue
			}
			ch.buf = append(ch.buf[:len(ch.buf):len(ch.buf)], w.val)
			ch.bufvc = append(ch.bufvc[:len(ch.bufvc):len(ch.bufvc)], w.vc)
			w.vc = w.vc.join(*ch.slot(ch.nsend))
			ch.nsend++
			w.done = true
			if w.sel != nil {
				w.sel.fired = w.idx
				w.sel.op = w
			}
			break
		}
		return v, true, true
	}
	for len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if !w.active() {
			continue
		}
		w.done = true
		if w.sel != nil {
			w.sel.fired = w.idx
			w.sel.op = w
		}
		wv := w.vc
		w.vc = fr.pr.release()
		fr.pr.vc = fr.pr.vc.join(wv)
		return w.val, true, true
	}
	if ch.closed {
		fr.pr.vc = fr.pr.vc.join(ch.vc)
		return zero(et), false, true
	}
	return nil, false, false
}

func (it *Interp) chanClose(fr *frame, ch *Chan) {
	if ch == nil {
		it.rtPanicPlain(fr, "close of nil channel")
	}
	it.schedPoint(fr, "close")
	if ch.closed {
		it.rtPanicPlain(fr, "close of closed channel")
	}
	ch.closed = true
	ch.vc = fr.pr.release()
	for _, w := range ch.recvq {
		if w.active() {
			w.done, w.ok = true, false
			w.vc = ch.vc.clone()
			if w.sel != nil {
				w.sel.fired = w.idx
				w.sel.op = w
			}
		}
	}
	ch.recvq = nil
	for _, w := range ch.sendq {
		if w.active() {
			w.done, w.pan = true, true
			if w.sel != nil {
				w.sel.fired = w.idx
				w.sel.op = w
			}
		}
	}
	ch.sendq = nil
	it.schedPoint(fr, "after close")
}

func (it *Interp) selectOp(fr *frame, in *ssa.Select, ci *cinstr) Value {
	type st struct {
		ch   *Chan
		send bool
		val  Value
		et   types.Type
	}
	var sts []st
	for i, s := range in.States {
		chv := fr.get(&ci.o[2*i]) // operands: channel and value sent, if any, of each state
		ch, ok := chv.(*Chan)
		if !ok {
			poison(chv, fr)
		}
		x := st{ch: ch, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if x.send {
			x.val = fr.get(&ci.o[2*i+1])
		}
		sts = append(sts, x)
	}
	it.schedPoint(fr, "select")
	// timers may fire at any moment
	hasTimer := false
	for _, s := range sts {
		if s.ch != nil && s.ch.isTimer && !s.send {
			hasTimer = true
			t := s.ch.timer
			if !it.P.simulate && len(s.ch.buf) == 0 && !t.stop && t.fires < t.max && (t.period || t.fires == 0) {
				if it.choose(fr, 2, "timer") == 1 {
					it.fire(fr, s.ch)
				}
			}
		}
	}
	canGo := func(s st) bool {
		if s.ch == nil {
			return false
		}
		if s.send {
			if s.ch.closed || len(s.ch.buf) < s.ch.cap {
				return true
			}
			for _, w := range s.ch.recvq {
				if w.active() {
					return true
				}
			}
			return false
		}
		if s.ch.closed || len(s.ch.buf) > 0 {
			return true
		}
		for _, w := range s.ch.sendq {
			if w.active() {
				return true
			}
		}
		return false
	}
	result := func(idx int, recvOK bool, v Value) Value {
		tu := Tuple{Int64T(int64(idx)), BoolT(recvOK)}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx && recvOK {
				tu = append(tu, v)
			} else {
				tu = append(tu, zero(s.et))
			}
		}
		return tu
	}
	do := func(k int) Value {
		s := sts[k]
		if s.send {
			it.trySend(fr, s.ch, s.val)
			return result(k, false, nil)
		}
		v, okb, _ := it.tryRecv(fr, s.ch, s.et)
		return result(k, okb, v)
	}
	var rdy []int
	for i, s := range sts {
		if canGo(s) {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		return do(rdy[it.choose(fr, len(rdy), "select")])
	}
	if !in.Blocking {
		return result(-1, false, nil)
	}
	sel := &selState{fired: -1}
	selvc := fr.pr.release()
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		w := &waitOp{pr: fr.pr, sel: sel, idx: i, val: copyVal(s.val), vc: selvc.clone()}
		if s.send {
			s.ch.sendq = append(s.ch.sendq, w)
		} else {
			s.ch.recvq = append(s.ch.recvq, w)
		}
	}
	fr.pr.onTimer = hasTimer
	it.block(fr, "select", func() bool { return sel.fired >= 0 })
	fr.pr.onTimer = false
	w := sel.op
	fr.pr.vc = fr.pr.vc.join(w.vc)
	if w.pan {
		it.rtPanicPlain(fr, "send on closed channel")
	}
	if sts[sel.fired].send {
		return result(sel.fired, false, nil)
	}
	if !w.ok {
		// sendq handoff sets done with val in sender's op
		return result(sel.fired, false, nil)
	}
	return result(sel.fired, true, w.val)
}
