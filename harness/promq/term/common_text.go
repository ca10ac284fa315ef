package term

import (
	"github.com/gdamore/tcell"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

// vPiece is one character of a text: its bytes, and what it is.
type vPiece struct {
	s     string
	r     rune
	width int  // columns
	nl    bool // starts a new line
	skip  bool // shows nothing
}

// vAnyPiece: any ASCII character, any of 64 wide ideographs, any of 48
// combining marks.
func vAnyPiece() vPiece {
	switch vsym.Choice("class", 3) {
	case 0:
		b := vsym.Byte("ascii")
		vsym.Assume(b < 0x80)
		p := vPiece{s: string([]byte{b}), r: rune(b), width: 1}
		if b == '\n' {
			p.nl = true
		} else if b < ' ' || b == 0x7f {
			p.skip = true
		}
		return p
	case 1:
		b := vsym.Byte("wide")
		vsym.Assume(vsym.And(b >= 0x80, b <= 0xbf))
		return vPiece{s: string([]byte{0xe4, 0xb8, b}), r: 0x4e00 + rune(b-0x80), width: 2}
	default:
		b := vsym.Byte("mark")
		vsym.Assume(vsym.And(b >= 0x80, b <= 0xaf))
		return vPiece{s: string([]byte{0xcc, b}), r: 0x300 + rune(b-0x80)}
	}
}

type vRich struct {
	vCell
	comb []rune
}

// vPrint is the reference: what writing the pieces in order shows.
type vPrint struct {
	*vArea
	marks [][][]rune
}

func vNewPrint(rows, cols int) *vPrint {
	p := &vPrint{vArea: vNewArea(rows, cols)}
	for r := 0; r < rows; r++ {
		p.marks = append(p.marks, make([][]rune, cols))
	}
	return p
}

func (p *vPrint) newline() {
	scroll := p.row == p.rows-1
	for c := p.col; c < p.cols; c++ {
		p.marks[p.row][c] = nil
	}
	p.vArea.newline()
	if scroll {
		for r := 1; r < p.rows; r++ {
			copy(p.marks[r-1], p.marks[r])
		}
		p.marks[p.rows-1] = make([][]rune, p.cols)
	}
}

func (p *vPrint) put(r rune, width int, marks []rune, sty tcell.Style) {
	if p.cols-p.col < width {
		p.newline()
	}
	p.cells[p.row][p.col] = vCell{r, sty}
	p.marks[p.row][p.col] = marks
	for c := p.col + 1; c < p.col+width && c < p.cols; c++ {
		// Hidden below the wide character to the left.
		p.cells[p.row][c] = vCell{-1, 0}
	}
	p.col = vMin(p.col+width, p.cols)
}

func (p *vPrint) write(pieces []vPiece, sty tcell.Style) {
	for i := 0; i < len(pieces); i++ {
		switch {
		case pieces[i].nl:
			p.newline()
			continue
		case pieces[i].skip:
			continue
		}
		base, width := pieces[i].r, pieces[i].width
		var marks []rune
		if width == 0 { // a mark with nothing to combine with
			marks = []rune{base}
			base, width = ' ', 1
		}
		j := i + 1
		for ; j < len(pieces); j++ {
			if pieces[j].skip {
				continue
			}
			if pieces[j].nl || pieces[j].width != 0 {
				break
			}
			marks = append(marks, pieces[j].r)
		}
		p.put(base, width, marks, sty)
		i = j - 1
	}
}

func vCheckShown(flush func(tcell.Screen), startCol, startRow int, want *vPrint, msg string) {
	got := make([][]*vRich, want.rows)
	for r := range got {
		got[r] = make([]*vRich, want.cols)
	}
	flush(&vScreen{put: func(x, y int, mainc rune, combc []rune, style tcell.Style) {
		x, y = x-startCol, y-startRow
		vsym.Assert(x >= 0 && x < want.cols && y >= 0 && y < want.rows, "drawn outside the area")
		got[y][x] = &vRich{vCell{mainc, style}, combc}
	}})
	for r := range got {
		for c, g := range got[r] {
			w := want.cells[r][c]
			if w.r == -1 {
				continue
			}
			if g == nil {
				vsym.Fail("cell not drawn")
				return
			}
			vsym.Assert(vsym.And(g.r == w.r, g.sty == w.sty), msg)
			vsym.Assert(len(g.comb) == len(want.marks[r][c]), "marks of "+msg)
			for i := range g.comb {
				if i < len(want.marks[r][c]) {
					vsym.Assert(g.comb[i] == want.marks[r][c][i], "marks of "+msg)
				}
			}
		}
	}
}

func vAnyText(n int) ([]vPiece, string) {
	var ps []vPiece
	s := ""
	for i := 0; i < n; i++ {
		p := vAnyPiece()
		ps = append(ps, p)
		s += p.s
	}
	return ps, s
}
