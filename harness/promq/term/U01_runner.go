package term

import (
	"context"
	"errors"

	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VU01_events", VU01_events)
	vsym.Register("VU01_stop", VU01_stop)
	vsym.Register("VU01_early", VU01_early)
	vsym.Register("VU01_many", VU01_many)
}

type vView struct {
	id      int
	box     PositionBox
	boxed   bool
	flushes int
	version int // how often it has been asked for
}

func (v *vView) SetBox(b PositionBox) { v.box, v.boxed = b, true }
func (v *vView) FlushTo(s tcell.Screen) {
	t := s.(*vTerm)
	v.flushes++
	if t.owner != 0 && t.owner != 1000*v.version+v.id {
		t.owner = -1
	} else {
		t.owner = 1000*v.version + v.id
	}
	t.painted = v.id
}

// Any history of events: keys go to the handler, in order; the screen always
// ends up showing the last view asked for, in the size the screen has, and
// nothing of other views.
func VU01_events() {
	vsym.Preempt(0)
	s := &vTerm{evts: make(chan tcell.Event, vsym.Choice("room for events", 2)*7+1), cols: 7, rows: 5}
	var keys []rune
	done := make(chan bool)
	started := make(chan bool)
	r := &Runner{
		MakeScreen: func() (tcell.Screen, error) { return s, nil },
		OnStart:    func() { close(started) },
		KeyHandler: func(e *tcell.EventKey) {
			if e.Key() == tcell.KeyF1 {
				done <- true
				return
			}
			keys = append(keys, e.Rune())
		},
	}
	var cur *vView
	ctx, cancel := context.WithCancel(context.Background())
	var initial View
	if vsym.Choice("initial view", 2) == 1 {
		cur = &vView{id: 100}
		initial = cur
	}
	ended := make(chan error)
	go func() { ended <- r.Run(ctx, initial) }()
	<-started
	cols, rows := 7, 5
	var want []rune
	idle := true // nothing looks at the views
	n := vsym.Bound("events", 4, 5)
	for i := 1; i <= n; i++ {
		switch vsym.Choice("event", 4) {
		case 0:
			k := vsym.Rune("key")
			vsym.Assume(k >= ' ' && k != 0x7f)
			want = append(want, k)
			s.evts <- tcell.NewEventKey(tcell.KeyRune, k, tcell.ModNone)
		case 1:
			cols, rows = vsym.IntRange("cols", 0, 500), vsym.IntRange("rows", 0, 500)
			s.evts <- tcell.NewEventResize(cols, rows)
		case 2:
			if cur == nil || !idle || vsym.Choice("the same view", 2) == 0 {
				cur = &vView{id: i}
			} else {
				cur.version++ // now looks different
			}
			r.RequestUpdate(cur)
		case 3:
			r.RequestRepaint()
		}
		idle = false
		if vsym.Choice("wait", 2) == 1 || i == n {
			idle = true
			s.evts <- tcell.NewEventKey(tcell.KeyF1, 0, tcell.ModNone)
			<-done
			vsym.Assert(len(keys) == len(want), "every key is handled once")
			for j := range want {
				vsym.Assert(keys[j] == want[j], "keys are handled in order")
			}
			if cur != nil {
				if cur.boxed || cur.id != 100 {
					vsym.Assert(cur.boxed, "a view is placed before it is shown")
					vsym.Assert(vsym.And(cur.box.StartCol == 0, cur.box.StartRow == 0, cur.box.Cols == cols, cur.box.Rows == rows), "the view fills the screen")
				}
				vsym.Assert(s.painted == cur.id, "the latest view is painted")
				vsym.Assert(s.owner == 1000*cur.version+cur.id, "nothing of what was shown before is left")
				vsym.Assert(len(s.shown) > 0 && s.shown[len(s.shown)-1] == cur.id, "what is painted is shown")
			}
		}
	}
	before := 0
	if cur != nil {
		before = cur.flushes
	}
	r.RequestRepaint()
	s.evts <- tcell.NewEventKey(tcell.KeyF1, 0, tcell.ModNone)
	<-done
	if cur != nil {
		vsym.Assert(cur.flushes > before, "repainted when asked to")
	}
	vsym.Assert(s.finis == 0, "the screen is kept until the end")
	cancel()
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Assert(s.inits == 1 && s.finis == 1, "the screen is set up and given back once")
	vsym.Reach("run")
}

// Stopping at any moment, with events pending, ends the loop and leaves the
// terminal.
func VU01_stop() {
	vsym.Preempt(vsym.Bound("preemptions", 1, 2))
	s := &vTerm{evts: make(chan tcell.Event, 16), cols: 7, rows: 5}
	handled := 0
	r := &Runner{
		MakeScreen: func() (tcell.Screen, error) { return s, nil },
		KeyHandler: func(e *tcell.EventKey) { handled++ },
	}
	ctx, cancel := context.WithCancel(context.Background())
	for i, n := 0, vsym.Choice("pending", 3); i < n; i++ {
		if vsym.Choice("event", 2) == 0 {
			s.evts <- tcell.NewEventKey(tcell.KeyRune, 'x', tcell.ModNone)
		} else {
			s.evts <- tcell.NewEventInterrupt(&vView{id: i + 1})
		}
	}
	go cancel()
	vsym.Assert(r.Run(ctx, nil) == nil, "ends without an error")
	vsym.Assert(s.inits == 1 && s.finis == 1, "the screen is set up and given back once")
	vsym.Assert(handled <= 2, "nothing is handled twice")
	vsym.Reach("stopped")
}

// Without a screen there is an error, and nothing happens.
func VU01_early() {
	e := errors.New("no screen")
	r := &Runner{
		MakeScreen: func() (tcell.Screen, error) { return nil, e },
		OnStart:    func() { vsym.Fail("started without a screen") },
	}
	vsym.Assert(errors.Is(r.Run(context.Background(), &vView{id: 1}), e), "the error is reported")
	vsym.Reach("refused")
}

// Requests from several sides while the loop is running: all are served, the
// last one in the queue is what is shown.
func VU01_many() {
	vsym.Preempt(vsym.Bound("preemptions", 2, 3))
	s := &vTerm{evts: make(chan tcell.Event, vsym.Choice("room for events", 2)+1), cols: 7, rows: 5}
	done := make(chan bool)
	started := make(chan bool)
	r := &Runner{
		MakeScreen: func() (tcell.Screen, error) { return s, nil },
		OnStart:    func() { close(started) },
		KeyHandler: func(e *tcell.EventKey) { done <- true },
	}
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan error)
	go func() { ended <- r.Run(ctx, nil) }()
	<-started
	sent := make(chan bool)
	a, b := &vView{id: 1}, &vView{id: 2}
	go func() {
		r.RequestUpdate(a)
		sent <- true
	}()
	only := vsym.Choice("repaint", 2) == 1
	if only {
		r.RequestRepaint()
	} else {
		r.RequestUpdate(b)
	}
	<-sent
	s.evts <- tcell.NewEventKey(tcell.KeyF1, 0, tcell.ModNone)
	<-done
	vsym.Assert(!only || s.owner == 1, "the view asked for is shown")
	vsym.Assert(s.owner > 0 && s.painted == s.owner, "one view is shown")
	vsym.Assert(len(s.shown) > 0 && s.shown[len(s.shown)-1] == s.painted, "what is painted is shown")
	cancel()
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Reach("served")
}
