package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VW02_text", VW02_text)
	vsym.Register("VW02_chunks", VW02_chunks)
}

// One write of any short text, from any cursor position in an area with
// previous contents.
func VW02_text() {
	rows := 1 + vsym.Choice("rows", vsym.Bound("text area rows", 2, 3))
	cols := 2 + vsym.Choice("cols", vsym.Bound("text area cols", 3, 4))
	t := &textWrapper{}
	t.Resize(cols, rows)
	t.Reset()
	p := vNewPrint(rows, cols)
	for r := 0; r < rows; r++ {
		for c := 0; c < cols; c++ {
			t.CursorGoTo(r, c)
			t.WriteString("~", vInk)
			p.cells[r][c] = vCell{'~', vInk}
		}
	}
	// The last row, or (by induction over rows) any other.
	p.row = vsym.Choice("row", rows)
	p.col = vsym.Choice("col", cols)
	t.CursorGoTo(p.row, p.col)
	ps, s := vAnyText(1 + vsym.Choice("length", vsym.Bound("characters", 3, 4)))
	t.WriteString(s, tcell.StyleDefault)
	p.write(ps, tcell.StyleDefault)
	c, r := t.CursorPosition()
	vsym.Assert(r == p.row, "cursor row")
	vsym.Assert(c == p.col, "cursor column")
	vCheckShown(func(s tcell.Screen) { t.FlushTo(s, 3, 5) }, 3, 5, p, "text")
	vsym.Reach("printed")
}

// The same text in two writes with different styles.
func VW02_chunks() {
	rows, cols := 2, 3
	t := &textWrapper{}
	t.Resize(cols, rows)
	t.Reset()
	p := vNewPrint(rows, cols)
	n := vsym.Bound("characters in two chunks", 4, 5)
	cut := 1 + vsym.Choice("cut", n-1)
	one, s1 := vAnyText(cut)
	two, s2 := vAnyText(n - cut)
	t.WriteString(s1, vInk)
	t.WriteString(s2, tcell.StyleDefault)
	p.write(one, vInk)
	p.write(two, tcell.StyleDefault)
	vCheckShown(func(s tcell.Screen) { t.FlushTo(s, 3, 5) }, 3, 5, p, "text")
	vsym.Reach("printed")
}
