package term

import (
	"fmt"
	"math"

	"github.com/gdamore/tcell"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VD06_graph", VD06_graph)
	vsym.Register("VD06_colours", VD06_colours)
	vsym.Register("VD06_nothing", VD06_nothing)
}

type vGPoint struct {
	x int64
	y float64
}

func (p vGPoint) X() int64   { return p.x }
func (p vGPoint) Y() float64 { return p.y }

type vGSeries struct {
	id  plot.SeriesId
	pts []plot.Point
}

func (s vGSeries) Title() string        { return "s" }
func (s vGSeries) Id() plot.SeriesId    { return s.id }
func (s vGSeries) Points() []plot.Point { return s.pts }

func vGSet(ids []plot.SeriesId, pts ...[]vGPoint) plot.SeriesSet {
	var set plot.SeriesSet
	for i, ps := range pts {
		s := vGSeries{id: ids[i]}
		for _, p := range ps {
			s.pts = append(s.pts, p)
		}
		set = append(set, s)
	}
	return set
}

func vIsBraille(c rune) bool { return c >= 0x2800 && c <= 0x28ff }

type vGCell struct {
	c rune
	s tcell.Style
}

// Any graph of a family, in a box of any size at any place: drawn inside the
// box only, the plot between the axes, the axes unbroken, and the same picture
// wherever the box is.
func VD06_graph() {
	ids := []plot.SeriesId{1, 2, 300}
	var set plot.SeriesSet
	switch vsym.Choice("graph", 8) {
	case 0:
		set = vGSet(ids, nil)
	case 1:
		set = vGSet(ids, []vGPoint{{5, 7}})
	case 2:
		set = vGSet(ids, []vGPoint{{0, 0}, {10, 10}})
	case 3:
		set = vGSet(ids, []vGPoint{{0, 1e9}, {1, -1e9}}, []vGPoint{{0, 5}, {100000, 6}})
	case 4:
		set = vGSet(ids, []vGPoint{{0, math.NaN()}, {10, math.Inf(1)}, {20, 3}})
	case 5:
		set = vGSet(ids, []vGPoint{{-10, 2}, {10, 2}}, nil, []vGPoint{{0, 4}})
	case 6:
		set = vGSet(ids, []vGPoint{{1605700000000, 0.001}, {1605700060000, 0.0015}})
	case 7:
		set = vGSet(ids, []vGPoint{{0, math.NaN()}})
	}
	g := plot.DataToPlatonicGraph(set, plot.AutoAxes())
	cols := vsym.Choice("cols", vsym.Bound("columns", 14, 24))
	rows := vsym.Choice("rows", vsym.Bound("rows", 6, 10))
	size := 1 + vsym.Choice("label", 3)
	view := &GraphView{
		Graph:         g,
		RangeLabeler:  func(v float64) string { return fmt.Sprintf("%v  ", v)[:size] },
		DomainLabeler: func(v int64) string { return fmt.Sprintf("%v  ", v)[:size] },
	}
	if vsym.Choice("spacing", 2) == 1 {
		view.DomainTickSpacing, view.RangeTickSpacing = 3, 2
	}
	vCheckGraph(view, g, cols, rows)
}

// vCheckGraph draws the view at any place.
func vCheckGraph(view *GraphView, g *plot.PlatonicGraph, cols, rows int) {
	draw := func(x0, y0 int) map[[2]int]vGCell {
		cells := map[[2]int]vGCell{}
		view.SetBox(PositionBox{StartCol: x0, StartRow: y0, Cols: cols, Rows: rows})
		view.FlushTo(&vScreen{put: func(x, y int, c rune, comb []rune, st tcell.Style) {
			vsym.Assert(vsym.And(x >= x0, x-x0 < cols, y >= y0, y-y0 < rows), "drawn inside the box")
			cells[[2]int{vsym.Concrete(x - x0), vsym.Concrete(y - y0)}] = vGCell{c, st}
		}})
		return cells
	}
	at := draw(vsym.IntRange("start col", 0, 1<<40), vsym.IntRange("start row", 0, 1<<40))
	home := draw(0, 0)
	vsym.Assert(len(at) == len(home), "the same picture everywhere")
	for p, c := range home {
		vsym.Assert(at[p] == c, "the same picture everywhere")
	}
	if len(home) == 0 {
		vsym.Reach("nothing fits")
		return
	}
	// the corner, and from it the axes to the edges of the box
	cx, cy, corners := 0, 0, 0
	for p, c := range home {
		if c.c == '┗' {
			cx, cy = p[0], p[1]
			corners++
		}
	}
	vsym.Assert(corners == 1, "one origin")
	vsym.Assert(vsym.And(cx < cols-1, cy > 0), "there is a plot")
	for y := 0; y < cy; y++ {
		c := home[[2]int{cx, y}].c
		vsym.Assert(c == '┃' || c == '┨', "the value axis is unbroken")
	}
	for x := cx + 1; x < cols; x++ {
		c := home[[2]int{x, cy}].c
		vsym.Assert(c == '━' || c == '┯', "the time axis is unbroken")
	}
	for p, c := range home {
		if p[0] > cx && p[1] < cy {
			vsym.Assert(c.c == ' ' || vIsBraille(c.c), "nothing but the plot between the axes")
		} else {
			vsym.Assert(!vIsBraille(c.c), "the plot is between the axes")
			vsym.Assert(c.s == tcell.StyleDefault, "axes have no colour of a series")
		}
	}
	// the plot is what the plot package makes of a screen of that size
	size2 := plot.ScreenSize{Cols: plot.Column(cols - cx - 1), Rows: plot.Row(cy)}
	n := 0
	plot.DrawBraille(g.ToScreen(func(v float64) float64 { return v }, plot.BrailleCellScreenSize(size2)).Render(plot.BrailleCellMapper), func(row plot.Row, col plot.Column, c rune, id plot.SeriesId) {
		n++
		got := home[[2]int{int(col) + cx + 1, int(row)}]
		vsym.Assert(got.c == c, "the plot fills what the axes leave")
	})
	vsym.Assert(n == (cols-cx-1)*cy, "all of the plot")
	vsym.Reach("drawn")
}

// Each series in the colour of its ID.
func VD06_colours() {
	a, b := plot.SeriesId(vsym.IntRange("id", 1, 65535)), plot.SeriesId(vsym.IntRange("id", 1, 65535))
	set := vGSet([]plot.SeriesId{a, b}, []vGPoint{{0, 0}, {100, 0}}, []vGPoint{{0, 10}, {100, 10}})
	view := &GraphView{
		Graph:         plot.DataToPlatonicGraph(set, plot.AutoAxes()),
		RangeLabeler:  func(v float64) string { return "1" },
		DomainLabeler: func(v int64) string { return "2" },
	}
	view.SetBox(PositionBox{Cols: 12, Rows: 8})
	top, bottom, last := 0, 0, 0
	view.FlushTo(&vScreen{put: func(x, y int, c rune, comb []rune, st tcell.Style) {
		if !vIsBraille(c) {
			return
		}
		if y > last {
			last = y
		}
		fg, bg, attr := st.Decompose()
		vsym.Assert(vsym.And(bg == tcell.ColorDefault, attr == tcell.AttrNone), "only the foreground")
		if y == 0 {
			vsym.Assert(int(fg) == int(b)%256, "the upper series in its colour")
			top++
		} else {
			vsym.Assert(int(fg) == int(a)%256, "the lower series in its colour")
			bottom++
		}
	}})
	vsym.Assert(vsym.And(top > 0, bottom > 0, last > 0), "both are drawn")
	vsym.Reach("coloured")
}

// Without a graph nothing is drawn.
func VD06_nothing() {
	view := &GraphView{}
	view.SetBox(PositionBox{Cols: vsym.Int("cols"), Rows: vsym.Int("rows")})
	view.FlushTo(&vScreen{put: func(x, y int, c rune, comb []rune, st tcell.Style) { vsym.Fail("drawn") }})
	vsym.Reach("nothing")
}
