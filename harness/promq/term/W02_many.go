package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VW02_many", VW02_many)
}

// A long text in a large area, in one write or many.
func VW02_many() {
	vsym.MaxSteps(60000000)
	dim := [][2]int{{24, 80}, {50, 201}, {2, 300}}[vsym.Choice("size", vsym.Bound("large areas", 2, 3))]
	t := &textWrapper{}
	t.Resize(dim[1], dim[0])
	t.Reset()
	p := vNewPrint(dim[0], dim[1])
	ps, s := vManyPieces(vsym.Bound("many characters", 1200, 5000))
	if vsym.Choice("one write", 2) == 1 {
		t.WriteString(s, vInk)
		p.write(ps, vInk)
	} else {
		for len(ps) > 0 {
			n := vMin(len(ps), 37)
			for n < len(ps) && (ps[n].width == 0 || ps[n].skip) {
				n++ // marks stay with their character
			}
			s = ""
			for _, q := range ps[:n] {
				s += q.s
			}
			t.WriteString(s, vInk)
			p.write(ps[:n], vInk)
			ps = ps[n:]
		}
	}
	c, r := t.CursorPosition()
	vsym.Assert(vsym.And(r == p.row, c == p.col), "cursor")
	vCheckShown(func(s tcell.Screen) { t.FlushTo(s, 3, 5) }, 3, 5, p, "text")
	vsym.Reach("printed")
}
