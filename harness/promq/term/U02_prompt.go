package term

// replay: terminal

import (
	"context"
	"errors"
	"time"

	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VU02_lines", VU02_lines)
	vsym.Register("VU02_start", VU02_start)
	vsym.Register("VU02_pasted", VU02_pasted)
	vsym.Register("VU02_end", VU02_end)
	vsym.Register("VU02_quit", VU02_quit)
}

type vCursor struct {
	col, row  int
	repainted int
}

func (c *vCursor) ShowCursor(col, row int) { c.col, c.row = col, row }
func (c *vCursor) HideCursor()             {}
func (c *vCursor) RequestRepaint()         { c.repainted++ }

func vPrompt(handle func(string) (*string, bool)) (*PromptView, chan bool) {
	setup := make(chan bool)
	return &PromptView{
		Screen: &vCursor{},
		SetupPrompt: func(opts ...prompt.Option) *prompt.Prompt {
			return prompt.New(nil, func(prompt.Document) []prompt.Suggest { return nil }, opts...)
		},
		HandleInput: handle,
		OnSetup:     func() { close(setup) },
	}, setup
}

func vType(v *PromptView, s string) {
	for _, r := range s {
		v.HandleKey(tcell.NewEventKey(tcell.KeyRune, r, 0))
	}
	v.HandleKey(tcell.NewEventKey(tcell.KeyEnter, 0, 0))
}

// vDrawn: the lines that a view draws, of ASCII characters.
func vDrawn(v View, cols, rows int) []string {
	cells := make([][]byte, rows)
	for i := range cells {
		cells[i] = make([]byte, cols)
		for j := range cells[i] {
			cells[i][j] = ' '
		}
	}
	v.FlushTo(&vScreen{put: func(x, y int, c rune, _ []rune, _ tcell.Style) {
		vsym.Assert(vsym.And(x >= 0, x < cols, y >= 0, y < rows), "drawn inside the box")
		if c >= ' ' {
			cells[y][x] = byte(c)
		}
	}})
	var lines []string
	for _, l := range cells {
		n := len(l)
		for n > 0 && l[n-1] == ' ' {
			n--
		}
		lines = append(lines, string(l[:n]))
	}
	return lines
}

// Lines typed, whatever they say: each is handed to the handler once, in
// order, and what it answers is shown below the line, until it asks to stop.
func VU02_lines() {
	vsym.Preempt(0)
	inputs := make(chan string)
	replies := make(chan *string)
	stops := make(chan bool)
	v, setup := vPrompt(func(in string) (*string, bool) {
		inputs <- in
		return <-replies, <-stops
	})
	ctx, cancel := context.WithCancel(context.Background())
	shut := 0
	ended := make(chan error)
	var initial *string
	var first string
	if vsym.Choice("initial", 2) == 1 {
		first = "up"
		initial = &first
	}
	go func() { ended <- v.Run(ctx, initial, func() { shut++; cancel() }) }()
	<-setup
	v.SetBox(PositionBox{Cols: 20, Rows: 8})
	var lines []string
	n := vsym.Bound("lines", 2, 3)
	for i := 0; i < n; i++ {
		text := first
		if i > 0 || initial == nil {
			text = []string{"", "ab", "sum(x)"}[vsym.Choice("text", 3)]
			if i == n-1 {
				b := vsym.Byte("last")
				vsym.Assume(vsym.And(b > ' ', b < 127))
				text += string(rune(b))
			}
			vType(v, text)
		}
		in := <-inputs
		vsym.Assert(in == text, "what is typed is handled")
		lines = append(lines, "> "+text)
		var reply *string
		if vsym.Choice("reply", 2) == 1 {
			r := "ok" + string(rune('0'+i)) + "\n"
			reply = &r
			lines = append(lines, r[:3])
		}
		replies <- reply
		stops <- i == n-1
	}
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Assert(shut == 1, "the screen is shut down when asked to stop")
	got := vDrawn(v, 20, 8)
	for i, l := range lines {
		for len(l) > 0 && l[len(l)-1] == ' ' {
			l = l[:len(l)-1]
		}
		vsym.Assert(got[i] == l, "lines and answers are shown in order")
	}
	vsym.Reach("handled")
}

// Nothing is asked before there is a size; and a size from before counts.
func VU02_start() {
	vsym.Preempt(0)
	inputs := make(chan string, 4)
	v, setup := vPrompt(func(in string) (*string, bool) {
		inputs <- in
		return nil, true
	})
	early := vsym.Choice("placed early", 2) == 1
	box := PositionBox{StartCol: 3, StartRow: 2, Cols: 20, Rows: 9}
	if early {
		v.SetBox(box)
	}
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan error)
	first := "up"
	if vsym.Choice("long", 2) == 1 {
		first = "sum(rate(up{instance=~\"a.*\"}[5m])) by (job)"
	}
	go func() { ended <- v.Run(ctx, &first, cancel) }()
	<-setup
	if vsym.Choice("typing ahead", 2) == 1 {
		for _, r := range "xyz" {
			v.HandleKey(tcell.NewEventKey(tcell.KeyRune, r, 0))
		}
	}
	if !early {
		time.Sleep(20 * time.Millisecond)
		time.Sleep(20 * time.Millisecond)
		vsym.Assert(len(inputs) == 0, "waits for its place")
		v.SetBox(box)
	}
	vsym.Assert(<-inputs == first, "the initial input is handled")
	vsym.Assert(<-ended == nil, "ends without an error")
	col, row := 99, 99
	v.FlushTo(&vScreen{put: func(x, y int, c rune, _ []rune, _ tcell.Style) {
		vsym.Assert(vsym.And(x >= 3, x < 23, y >= 2, y < 11), "drawn inside the box")
		if c == '>' {
			col, row = x, y
		}
	}})
	vsym.Assert(vsym.And(col == 3, row == 2), "drawn at its place")
	vsym.Reach("started")
}

// Lines typed or pasted without waiting for the answers: none is lost.
func VU02_pasted() {
	vsym.Preempt(vsym.Bound("preemptions", 1, 2))
	vsym.Simulate()
	var got []string
	v, setup := vPrompt(func(in string) (*string, bool) {
		got = append(got, in)
		return nil, in == ":q"
	})
	first := "up"
	var initial *string
	var want []string
	if vsym.Choice("initial", 2) == 1 {
		initial = &first
		want = append(want, first)
	}
	ctx, cancel := context.WithCancel(context.Background())
	ended := make(chan error)
	go func() { ended <- v.Run(ctx, initial, cancel) }()
	<-setup
	v.SetBox(PositionBox{Cols: 20, Rows: 8})
	for i, n := 0, vsym.Bound("lines", 2, 3); i < n; i++ {
		l := []string{"", "ab"}[vsym.Choice("line", 2)]
		want = append(want, l)
		vType(v, l)
	}
	vType(v, ":q")
	want = append(want, ":q")
	vsym.Assert(<-ended == nil, "ends without an error")
	vsym.Assert(len(got) == len(want), "every line is handled once")
	for i := range want {
		vsym.Assert(got[i] == want[i], "lines are handled in order")
	}
	vsym.Reach("pasted")
}

// Ending from outside.
func VU02_end() {
	vsym.Preempt(0)
	v, setup := vPrompt(func(in string) (*string, bool) { return nil, false })
	ctx, cancel := context.WithCancel(context.Background())
	e := errors.New("deadline")
	var c context.Context = ctx
	failed := vsym.Choice("why", 2) == 1
	if failed {
		c = vEnded{ctx, e}
	}
	ended := make(chan error)
	go func() { ended <- v.Run(c, nil, func() { vsym.Fail("not asked to stop") }) }()
	<-setup
	if vsym.Choice("placed", 2) == 1 {
		v.SetBox(PositionBox{Cols: 20, Rows: 5})
		vType(v, "a")
	}
	cancel()
	err := <-ended
	if failed {
		vsym.Assert(errors.Is(err, e), "reports why it ended")
	} else {
		vsym.Assert(err == nil, "being cancelled is no error")
	}
	vsym.Reach("ended")
}

type vEnded struct {
	context.Context
	err error
}

func (c vEnded) Err() error {
	if c.Context.Err() != nil {
		return c.err
	}
	return nil
}

// Prompt and runner together: asking to stop ends both, however many keys
// follow.
func VU02_quit() {
	vsym.Preempt(0)
	s := &vFull{vTerm{evts: make(chan tcell.Event, 100), cols: 20, rows: 8}}
	handled := 0
	v, setup := vPrompt(func(in string) (*string, bool) {
		handled++
		vsym.Assert(in == ":q", "what is typed is handled")
		return nil, true
	})
	r := &Runner{
		MakeScreen: func() (tcell.Screen, error) { return s, nil },
		KeyHandler: v.HandleKey,
	}
	v.Screen = r
	ctx, cancel := context.WithCancel(context.Background())
	go v.Run(ctx, nil, cancel)
	<-setup
	s.evts <- tcell.NewEventResize(20, 8)
	for _, k := range ":q" {
		s.evts <- tcell.NewEventKey(tcell.KeyRune, k, 0)
	}
	s.evts <- tcell.NewEventKey(tcell.KeyEnter, 0, 0)
	for i, n := 0, []int{0, 5, 70}[vsym.Choice("more keys", 3)]; i < n; i++ {
		s.evts <- tcell.NewEventKey(tcell.KeyRune, 'x', 0)
	}
	vsym.Assert(r.Run(ctx, v) == nil, "ends without an error")
	vsym.Assert(vsym.And(handled == 1, s.finis == 1), "ends after what was asked")
	vsym.Reach("quit")
}

// vFull is a terminal on which anything may be drawn.
type vFull struct{ vTerm }

func (s *vFull) SetContent(x, y int, c rune, comb []rune, style tcell.Style) {}
func (s *vFull) ShowCursor(col, row int)                                     {}
func (s *vFull) HideCursor()                                                 {}
