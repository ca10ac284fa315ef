package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VL02_box", VL02_box)
}

var vBoxDims = [][2]int{{3, 1}, {2, 2}, {1, 3}, {3, 0}}

// A text box shows its text wrapped to its box, in its box only, again on
// every redraw and after any resize, also when text is appended in between.
func VL02_box() {
	box := &TextBox{}
	n := vsym.Bound("characters in a box", 2, 3)
	ps, s := vAnyText(n)
	box.WriteString(s, vInk)
	rounds := 2
	type chunk struct {
		ps  []vPiece
		sty tcell.Style
	}
	chunks := []chunk{{ps, vInk}}
	var pb PositionBox
	for i := 0; i <= rounds; i++ {
		if i == 0 || vsym.Choice("resize", 2) == 1 {
			pb = PositionBox{
				StartCol: vsym.IntRange("startCol", 0, 1000), StartRow: vsym.IntRange("startRow", 0, 1000),
			}
			dim := vBoxDims[vsym.Choice("dim", len(vBoxDims))]
			pb.Cols, pb.Rows = dim[0], dim[1] // perhaps the same again, elsewhere
			box.SetBox(pb)
		}
		if i == 1 {
			more, s := vAnyText(1)
			box.WriteString(s, tcell.StyleDefault)
			chunks = append(chunks, chunk{more, tcell.StyleDefault})
		}
		if pb.Cols == 0 || pb.Rows == 0 {
			box.FlushTo(&vScreen{put: func(x, y int, _ rune, _ []rune, _ tcell.Style) {
				vsym.Fail("drawn in an empty box")
			}})
			continue
		}
		want := vNewPrint(pb.Rows, pb.Cols)
		for _, c := range chunks {
			want.write(c.ps, c.sty)
		}
		vCheckShown(box.FlushTo, pb.StartCol, pb.StartRow, want, "text of the box")
	}
	vsym.Reach("drawn")
}
