package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VL02_many", VL02_many)
}

// A long text in a box, written in many pieces, resized in between.
func VL02_many() {
	vsym.MaxSteps(80000000)
	box := &TextBox{}
	ps, _ := vManyPieces(vsym.Bound("many characters", 900, 4000))
	dims := [][2]int{{80, 24}, {7, 100}, {201, 3}}
	type chunk struct {
		ps  []vPiece
		sty tcell.Style
	}
	var chunks []chunk
	for i := 0; len(ps) > 0; i++ {
		n := vMin(len(ps), 61)
		for n < len(ps) && (ps[n].width == 0 || ps[n].skip) {
			n++ // marks stay with their character
		}
		s := ""
		for _, q := range ps[:n] {
			s += q.s
		}
		sty := []tcell.Style{vInk, tcell.StyleDefault}[i%2]
		box.WriteString(s, sty)
		chunks = append(chunks, chunk{ps[:n], sty})
		ps = ps[n:]
		if i%7 != 0 && len(ps) > 0 {
			continue
		}
		pb := PositionBox{StartCol: 4, StartRow: 2, Cols: dims[i%3][0], Rows: dims[i%3][1]}
		box.SetBox(pb)
		want := vNewPrint(pb.Rows, pb.Cols)
		for _, c := range chunks {
			want.write(c.ps, c.sty)
		}
		vCheckShown(box.FlushTo, pb.StartCol, pb.StartRow, want, "text of the box")
	}
	vsym.Reach("drawn")
}
