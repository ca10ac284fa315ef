package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VW01_many", VW01_many)
}

// Many operations on a large area, then any one.
func VW01_many() {
	vsym.MaxSteps(60000000)
	dim := [][2]int{{24, 80}, {60, 200}, {3, 300}}[vsym.Choice("size", vsym.Bound("large areas", 2, 3))]
	rows, cols := dim[0], dim[1]
	text := &textWrapper{}
	text.Resize(cols, rows)
	text.Reset()
	var t vOps = text
	if vsym.Choice("via the prompt's writer", 2) == 1 {
		t = &cellWriter{text: *text}
	}
	a := vNewArea(rows, cols)
	var rnd vRandom
	for i, n := 0, vsym.Bound("many operations", 100, 400); i < n; i++ {
		op := rnd.next(40)
		if op == 3 || op == 14 {
			continue // nothing would be left
		}
		if op < 16 {
			vStep(t, a, op, rnd.next(rows+2), rnd.next(cols+2))
			continue
		}
		for j := rnd.next(2 * cols); j > 0; j-- {
			c := rune('a' + rnd.next(26))
			t.WriteString(string(c), vInk)
			a.put(c, 1, vInk)
		}
	}
	op, k := vsym.Choice("op", 16), 1
	if op >= 9 && op < 14 {
		k = []int{1, rows + 1}[vsym.Choice("n", 2)]
	}
	vStep(t, a, op, k, cols/2)
	c, r := t.CursorPosition()
	vsym.Assert(r == a.row && c == a.col, "cursor")
	vSame(vShown(func(s tcell.Screen, x, y int) { t.FlushTo(s, x, y) }, rows, cols), a, "contents after the operations")
	vsym.Reach("stepped")
}
