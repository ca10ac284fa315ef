package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VW01_step", VW01_step)
	vsym.Register("VW01_resize", VW01_resize)
}

// vAnyState puts a text area into an arbitrary state: every cell inked with
// its own letter, the cursor anywhere, also past the end of a line.
func vAnyState(rows, cols int) (*textWrapper, *vArea) {
	t := &textWrapper{}
	t.Resize(cols, rows)
	t.Reset()
	a := vNewArea(rows, cols)
	for r := 0; r < rows; r++ {
		for c := 0; c < cols; c++ {
			ch := rune('A' + r*cols + c)
			t.CursorGoTo(r, c)
			t.WriteString(string(ch), vInk)
			a.cells[r][c] = vCell{ch, vInk}
		}
	}
	a.row = vsym.IntRange("row", 0, rows-1)
	a.col = vsym.IntRange("col", 0, cols)
	if a.col == cols {
		t.CursorGoTo(a.row, cols-1)
		t.WriteString("z", vInk)
		a.cells[a.row][cols-1] = vCell{'z', vInk}
	} else {
		t.CursorGoTo(a.row, a.col)
	}
	return t, a
}

type vOps interface {
	Newline()
	ScrollDown()
	ScrollUp()
	Erase()
	EraseUp()
	EraseDown()
	EraseStartOfLine()
	EraseEndOfLine()
	EraseLine()
	CursorForward(int)
	CursorBackward(int)
	CursorUp(int)
	CursorDown(int)
	CursorGoTo(row, col int)
	CursorPosition() (col, row int)
	Reset()
	WriteString(string, tcell.Style)
	FlushTo(tcell.Screen, int, int)
}

// vStep does one operation to the area, and to the reference what it is
// documented to do.
func vStep(t vOps, a *vArea, op, n, m int) {
	rows, cols := a.rows, a.cols
	switch op {
	case 0:
		t.Newline()
		a.newline()
	case 1:
		t.ScrollDown()
		if a.row < rows-1 {
			a.row++
		} else {
			a.shiftUp()
		}
	case 2:
		t.ScrollUp()
		if a.row > 0 {
			a.row--
		} else {
			a.shiftDown()
		}
	case 3:
		t.Erase()
		for r := 0; r < rows; r++ {
			a.clear(r, 0, cols)
		}
	case 4:
		t.EraseUp()
		for r := 0; r < a.row; r++ {
			a.clear(r, 0, cols)
		}
		a.clear(a.row, 0, a.col+1)
	case 5:
		t.EraseDown()
		a.clear(a.row, a.col, cols)
		for r := a.row + 1; r < rows; r++ {
			a.clear(r, 0, cols)
		}
	case 6:
		t.EraseStartOfLine()
		a.clear(a.row, 0, a.col+1)
	case 7:
		t.EraseEndOfLine()
		a.clear(a.row, a.col, cols)
	case 8:
		t.EraseLine()
		a.clear(a.row, 0, cols)
	case 9:
		t.CursorForward(n)
		a.col = vMin(a.col+n, cols-1)
	case 10:
		t.CursorBackward(n)
		a.col = vMax(a.col-n, 0)
	case 11:
		t.CursorUp(n)
		a.row = vMax(a.row-n, 0)
	case 12:
		t.CursorDown(n)
		a.row = vMin(a.row+n, rows-1)
	case 13:
		t.CursorGoTo(n, m)
		a.row, a.col = vMin(n, rows-1), vMin(m, cols-1)
	case 14:
		t.Reset()
		for r := 0; r < rows; r++ {
			a.clear(r, 0, cols)
		}
		a.row, a.col = 0, 0
	case 15:
		t.WriteString("q", vInk)
		a.put('q', 1, vInk)
	}
}

// One operation from an arbitrary state: the area shows exactly what the
// operation is documented to leave, and the cursor is where it belongs.
// Because the state before is arbitrary, this covers histories of any length.
func VW01_step() {
	rows := 1 + vsym.Choice("rows", vsym.Bound("text rows", 3, 4))
	cols := 1 + vsym.Choice("cols", vsym.Bound("text cols", 3, 4))
	text, a := vAnyState(rows, cols)
	var t vOps = text
	if vsym.Choice("via the prompt's writer", 2) == 1 {
		t = &cellWriter{text: *text}
	}
	vStep(t, a, vsym.Choice("op", 16), vsym.IntRange("n", 0, 9), vsym.IntRange("m", 0, 9))
	c, r := t.CursorPosition()
	vsym.Assert(r == a.row, "cursor row")
	vsym.Assert(c == a.col, "cursor column")
	vSame(vShown(t.FlushTo, rows, cols), a, "contents after the operation")
	vsym.Reach("stepped")
}

// A resize keeps what still fits in place, and leaves the cursor inside, so
// that any operation can follow.
func VW01_resize() {
	rows := 1 + vsym.Choice("rows", 2)
	cols := 1 + vsym.Choice("cols", 3)
	t, a := vAnyState(rows, cols)
	nr, nc := vsym.Choice("newRows", 4), vsym.Choice("newCols", 4)
	w := &cellWriter{text: *t}
	if vsym.Choice("via", 2) == 0 {
		w.SetBox(PositionBox{StartCol: 2, StartRow: 1, Rows: nr, Cols: nc})
	} else {
		w.Resize(nc, nr)
	}
	c, r := w.CursorPosition()
	vsym.Assert(vsym.And(c >= 0, c <= nc), "cursor column inside")
	vsym.Assert(vsym.And(r >= 0, r <= vMax(nr-1, 0)), "cursor row inside")
	got := vShown(w.FlushTo, nr, nc)
	for y := 0; y < nr && y < rows; y++ {
		for x := 0; x < nc && x < cols; x++ {
			vsym.Assert(got[y][x].r == a.cells[y][x].r, "kept contents")
		}
	}
	switch vsym.Choice("op", 10) {
	case 0:
		w.Newline()
	case 1:
		w.ScrollDown()
	case 2:
		w.ScrollUp()
	case 3:
		w.EraseUp()
	case 4:
		w.EraseDown()
	case 5:
		w.EraseStartOfLine()
	case 6:
		w.EraseEndOfLine()
	case 7:
		w.EraseLine()
	case 8:
		w.WriteString("ab", vInk)
	case 9:
		w.Erase()
	}
	vShown(w.FlushTo, nr, nc)
	vsym.Reach("resized")
}
