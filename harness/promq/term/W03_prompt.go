package term

import (
	"github.com/c-bata/go-prompt"
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VW03_place", VW03_place)
	vsym.Register("VW03_threads", VW03_threads)
	vsym.Register("VW03_style", VW03_style)
}

// vHandle is the screen as the prompt widget sees it.
type vHandle struct {
	col, row  int
	shown     bool
	repainted int
}

func (h *vHandle) ShowCursor(col, row int) { h.col, h.row, h.shown = col, row, true }
func (h *vHandle) HideCursor()             { h.shown = false }
func (h *vHandle) RequestRepaint()         { h.repainted++ }

func vPromptView() (*PromptView, *vHandle) {
	h := &vHandle{}
	v := &PromptView{Screen: h}
	v.writer = &cellWriter{screen: h}
	v.reader = &screenParser{evts: make(chan *tcell.EventKey, 30)}
	return v, h
}

// Wherever the widget is placed and whatever the prompt library does, it
// draws inside its box only, covers all of it, and shows the cursor in it.
func VW03_place() {
	v, h := vPromptView()
	place := func() PositionBox {
		box := PositionBox{
			StartCol: vsym.IntRange("startCol", 0, 1000), StartRow: vsym.IntRange("startRow", 0, 1000),
			Rows: 1 + vsym.Choice("rows", vsym.Bound("prompt rows", 2, 3)), Cols: 1 + vsym.Choice("cols", vsym.Bound("prompt cols", 3, 4)),
		}
		v.SetBox(box)
		return box
	}
	box := place()
	act := func() {
		w := v.writer
		switch vsym.Choice("op", 7) {
		case 0:
			w.WriteRaw([]byte("\n"))
		case 1:
			w.WriteStr("abc")
		case 2:
			w.WriteStr("d世\n")
		case 3:
			w.CursorForward(vsym.IntRange("n", 0, 9))
		case 4:
			w.CursorGoTo(vsym.IntRange("n", 0, 9), vsym.IntRange("m", 0, 9))
		case 5:
			w.EraseUp()
		case 6:
			w.ScrollDown()
		}
	}
	act()
	if vsym.Choice("moved", 2) == 1 {
		box = place()
	}
	act()
	v.writer.ShowCursor()
	vsym.Assert(h.shown, "cursor shown")
	vsym.Assert(vsym.And(h.col >= box.StartCol, h.col < box.StartCol+box.Cols), "cursor column in the box")
	vsym.Assert(vsym.And(h.row >= box.StartRow, h.row < box.StartRow+box.Rows), "cursor row in the box")
	size := v.reader.GetWinSize()
	vsym.Assert(vsym.And(int(size.Col) == box.Cols, int(size.Row) == box.Rows), "size told to the prompt library")
	drawn := 0
	v.FlushTo(&vScreen{put: func(x, y int, _ rune, _ []rune, _ tcell.Style) {
		vsym.Assert(vsym.And(x >= box.StartCol, x < box.StartCol+box.Cols), "drawn column in the box")
		vsym.Assert(vsym.And(y >= box.StartRow, y < box.StartRow+box.Rows), "drawn row in the box")
		drawn++
	}})
	vsym.Assert(drawn == box.Cols*box.Rows, "the whole box is drawn")
	before := h.repainted
	v.writer.Flush()
	vsym.Assert(h.repainted == before+1, "a flush asks for a repaint")
	vsym.Reach("placed")
}

// Everything the prompt library may do to the widget.
var vWriterOps = []func(w *cellWriter){
	func(w *cellWriter) { w.WriteStr("a\nbc") },
	func(w *cellWriter) { w.WriteRaw([]byte{'\n'}) },
	func(w *cellWriter) { w.ShowCursor() },
	func(w *cellWriter) { w.HideCursor() },
	func(w *cellWriter) { w.EraseScreen() },
	func(w *cellWriter) { w.EraseUp() },
	func(w *cellWriter) { w.EraseDown() },
	func(w *cellWriter) { w.EraseStartOfLine() },
	func(w *cellWriter) { w.EraseEndOfLine() },
	func(w *cellWriter) { w.EraseLine() },
	func(w *cellWriter) { w.ScrollDown() },
	func(w *cellWriter) { w.ScrollUp() },
	func(w *cellWriter) { w.CursorGoTo(0, 2) },
	func(w *cellWriter) { w.CursorUp(1) },
	func(w *cellWriter) { w.CursorDown(1) },
	func(w *cellWriter) { w.CursorForward(1) },
	func(w *cellWriter) { w.CursorBackward(1) },
	func(w *cellWriter) { w.SetTitle("t"); w.ClearTitle(); w.CursorPosition() },
	func(w *cellWriter) { w.Reset() },
	func(w *cellWriter) { w.Newline() },
	func(w *cellWriter) { w.WriteString("ab", tcell.StyleDefault) },
}

// The drawing thread moves and draws the widget while the prompt library
// writes to it: no data race, and nothing drawn outside the boxes given.
func VW03_threads() {
	vsym.Preempt(vsym.Bound("preemptions", 2, 3))
	v, _ := vPromptView()
	v.SetBox(PositionBox{StartCol: 1, StartRow: 1, Cols: 3, Rows: 2})
	op := vsym.Choice("op", len(vWriterOps))
	done := make(chan struct{})
	go func() {
		w := v.writer
		w.SetColor(prompt.Red, prompt.DefaultColor, false)
		vWriterOps[op](w)
		v.reader.GetWinSize()
		v.reader.Read()
		w.Flush()
		close(done)
	}()
	v.SetBox(PositionBox{StartCol: 2, StartRow: 0, Cols: 2, Rows: 1})
	v.FlushTo(&vScreen{put: func(x, y int, _ rune, _ []rune, _ tcell.Style) {
		vsym.Assert(x >= 2 && x < 4 && y == 0, "drawn outside the box")
	}})
	v.HandleKey(tcell.NewEventKey(tcell.KeyRune, 'x', 0))
	<-done
	vsym.Reach("both done")
}

// Text is written in the colours last set.
func VW03_style() {
	v, _ := vPromptView()
	v.SetBox(PositionBox{Cols: 2, Rows: 1})
	fg, bg := prompt.Color(vsym.IntRange("fg", 0, 16)), prompt.Color(vsym.IntRange("bg", 0, 16))
	bold := vsym.Choice("bold", 2) == 1
	v.writer.SetColor(prompt.Green, prompt.Blue, true)
	v.writer.SetColor(fg, bg, bold)
	v.writer.WriteStr("x")
	v.FlushTo(&vScreen{put: func(x, y int, r rune, _ []rune, sty tcell.Style) {
		if x != 0 || y != 0 {
			return
		}
		f, b, attr := sty.Decompose()
		vsym.Assert(r == 'x', "the text")
		vsym.Assert(int(f) == int(fg)-1, "foreground")
		vsym.Assert(int(b) == int(bg)-1, "background")
		vsym.Assert((attr&tcell.AttrBold != 0) == bold, "bold")
		vsym.Reach("styled")
	}})
}
