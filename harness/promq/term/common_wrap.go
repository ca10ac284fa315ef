package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

// vCell is what one cell of a text area shows.
type vCell struct {
	r   rune
	sty tcell.Style
}

var vBlank = vCell{' ', tcell.StyleDefault}
var vInk = tcell.StyleDefault.Bold(true)

// vArea is the reference: what a text area of this size should show, and
// where its cursor should be. pend: the cursor is past the last column.
type vArea struct {
	rows, cols int
	cells      [][]vCell
	row, col   int
}

func vNewArea(rows, cols int) *vArea {
	a := &vArea{rows: rows, cols: cols}
	for r := 0; r < rows; r++ {
		line := make([]vCell, cols)
		for c := range line {
			line[c] = vBlank
		}
		a.cells = append(a.cells, line)
	}
	return a
}

func (a *vArea) clear(row, from, to int) {
	for c := from; c < to; c++ {
		if c >= 0 && c < a.cols {
			a.cells[row][c] = vBlank
		}
	}
}

func (a *vArea) shiftUp() { // content moves up one row
	for r := 1; r < a.rows; r++ {
		copy(a.cells[r-1], a.cells[r])
	}
	a.clear(a.rows-1, 0, a.cols)
}

func (a *vArea) shiftDown() {
	for r := a.rows - 1; r > 0; r-- {
		copy(a.cells[r], a.cells[r-1])
	}
	a.clear(0, 0, a.cols)
}

func (a *vArea) newline() {
	a.clear(a.row, a.col, a.cols)
	a.col = 0
	if a.row == a.rows-1 {
		a.shiftUp()
	} else {
		a.row++
	}
}

// put shows a character of the given width at the cursor.
func (a *vArea) put(r rune, width int, sty tcell.Style) {
	if a.cols-a.col < width {
		a.newline()
	}
	a.cells[a.row][a.col] = vCell{r, sty}
	a.col += width
	if a.col > a.cols {
		a.col = a.cols
	}
}

// vShown reads the text area back through its drawing operation.
func vShown(flush func(tcell.Screen, int, int), rows, cols int) [][]vCell {
	out := make([][]vCell, rows)
	for r := range out {
		out[r] = make([]vCell, cols)
	}
	flush(&vScreen{put: func(x, y int, mainc rune, combc []rune, style tcell.Style) {
		vsym.Assert(x >= 3 && x < 3+cols && y >= 5 && y < 5+rows, "drawn outside the area")
		out[y-5][x-3] = vCell{mainc, style}
	}}, 3, 5)
	return out
}

func vSame(got [][]vCell, want *vArea, msg string) {
	for r := range got {
		for c := range got[r] {
			g := got[r][c]
			if g.r == 0 {
				g = vBlank
			}
			w := want.cells[r][c]
			vsym.Assert(vsym.And(g.r == w.r, g.sty == w.sty), msg)
		}
	}
}
