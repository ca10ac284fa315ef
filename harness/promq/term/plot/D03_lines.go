package plot

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VD03_rising", VD03_rising)
	vsym.Register("VD03_falling", VD03_falling)
	vsym.Register("VD03_long", VD03_long)
	vsym.Register("VD03_series", VD03_series)
}

// Segments that stay level or rise from left to right.
func VD03_rising() { vSegment(0, vsym.Bound("pixel rows", 16, 30)) }

// Segments that fall.
func VD03_falling() { vSegment(-vsym.Bound("pixel rows", 16, 30), -1) }

// Long segments that stay level or rise.
func VD03_long() {
	long := [][2]int{{0, 320}, {399, 1}, {199, 300}, {1, 399}, {300, 7}, {150, 150}, {399, 399}, {30, 390}, {7, 11}}
	l := long[vsym.Choice("segment", vsym.Bound("long segments", 5, len(long)))]
	vLine(l[0], l[1])
}

// The line between two consecutive points of a series is drawn without gaps:
// it starts and ends at the points, moves one pixel at a time, stays inside
// the box the points span and within one pixel of the ideal line.
func vSegment(lo, hi int) {
	cols := vsym.Bound("pixel cols", 16, 30)
	// the segment's extent is enumerated by forking, its position is symbolic
	vLine(vsym.Concrete(vsym.IntRange("rise", lo, hi)), vsym.Concrete(vsym.IntRange("run", 1, cols-1)))
}

func vLine(rise, run int) {
	screen := vsym.Bound("screen pixels per side", 400, 400)
	p := PixelPoint{Row: Row(vsym.IntRange("r0", 0, screen-1)), Col: Column(vsym.IntRange("c0", 0, screen-1))}
	q := PixelPoint{Row: p.Row + Row(rise), Col: p.Col + Column(run)}
	vsym.Assume(vsym.And(q.Row >= 0, int(q.Row) < screen))
	vsym.Assume(vsym.And(q.Col >= 0, int(q.Col) < screen))
	g := &ScreenGraph{
		ScreenSize: ScreenSize{Rows: Row(screen), Cols: Column(screen)},
		Series:     []ScreenSeries{{Id: 7, Points: []PixelPoint{p, q}}},
	}
	// cells are kept relative to p
	lo, hi := vMin(0, rise), vMax(0, rise)
	set := map[int]bool{}
	n := 0
	out := g.Render(func(row Row, col Column, size ScreenSize) int {
		vsym.Assert(size.Rows == Row(screen) && size.Cols == Column(screen), "mapper sees the real screen size")
		dr, dc := int(row-p.Row), int(col-p.Col)
		vsym.Assert(dc >= 0 && dc <= run, "pixel left or right of the segment")
		vsym.Assert(dr >= lo && dr <= hi, "pixel above or below the segment")
		vsym.Assert(vAbs(dr*run-dc*rise) <= vMax(run, vAbs(rise)), "pixel away from the ideal line")
		ind := (dr-lo)*(run+1) + dc
		if !set[ind] {
			n++
		}
		set[ind] = true
		return ind
	})
	at := func(dr, dc int) bool {
		return dc >= 0 && dc <= run && dr >= lo && dr <= hi && set[(dr-lo)*(run+1)+dc]
	}
	vsym.Assert(at(0, 0), "first point drawn")
	vsym.Assert(at(rise, run), "second point drawn")
	for ind := range set {
		vsym.Assert(out.Cells[ind].Series == 7, "drawn in the series' colour")
	}
	// no gaps: walk from the first point to the second
	r, c, steps := 0, 0, 0
	for !(r == rise && c == run) {
		found := false
		for _, d := range [][2]int{{1, 1}, {-1, 1}, {0, 1}, {1, 0}, {-1, 0}} {
			if d[0] != 0 && (d[0] > 0) != (rise > 0) {
				continue
			}
			if at(r+d[0], c+d[1]) {
				r, c = r+d[0], c+d[1]
				found = true
				break
			}
		}
		vsym.Assert(found, "gap in the line")
		steps++
	}
	if rise != 0 {
		vsym.Reach("sloped")
	} else {
		vsym.Reach("flat")
	}
	vsym.Observe("pixels", n)
}

// Several series of several points that do not fall, anywhere on the screen:
// all segments of each are drawn in its name, points before lines, and nothing
// else is.
func VD03_series() {
	const box = 40
	const screen = 60
	r0 := vsym.Choice("place", 2) * (screen - box)
	c0 := r0
	steps := [][2]int{{0, 3}, {5, 2}, {2, 7}, {4, 4}}
	n, k := 2, vsym.Bound("points", 3, 4)
	mapper := func(row Row, col Column, size ScreenSize) int {
		r, c := int(row)-r0, int(col)-c0
		vsym.Assert(vsym.And(r >= 0, r < box, c >= 0, c < box), "drawn away from the points")
		return r*box + c
	}
	graph := func(s ...ScreenSeries) *ScreenGraph {
		return &ScreenGraph{ScreenSize: ScreenSize{Rows: Row(screen), Cols: Column(screen)}, Series: s}
	}
	var all []ScreenSeries
	lines, points := map[int]map[SeriesId]bool{}, map[int]map[SeriesId]bool{}
	put := func(m map[int]map[SeriesId]bool, at int, id SeriesId) {
		if m[at] == nil {
			m[at] = map[SeriesId]bool{}
		}
		m[at][id] = true
	}
	for i := 0; i < n; i++ {
		s := ScreenSeries{Id: SeriesId(5 + i)}
		r, c := i*2, i
		for j := 0; j < k; j++ {
			if j > 0 {
				st := steps[vsym.Choice("step", 4)]
				r, c = r+st[0], c+st[1]
			}
			s.Points = append(s.Points, PixelPoint{Row: Row(r0 + r), Col: Column(c0 + c)})
			put(points, r*box+c, s.Id)
		}
		for j := 1; j < k; j++ {
			for at, cell := range graph(ScreenSeries{Id: s.Id, Points: s.Points[j-1 : j+1]}).Render(mapper).Cells[:box*box] {
				if cell.Series == s.Id {
					put(lines, at, s.Id)
				}
			}
		}
		all = append(all, s)
	}
	for at, cell := range graph(all...).Render(mapper).Cells[:box*box] {
		want := len(lines[at]) + len(points[at])
		vsym.Assert((cell.Series != NoSeries) == (want > 0), "all segments, and nothing else")
		if want == 0 {
			continue
		}
		ids := map[SeriesId]bool{cell.Series: true}
		for _, id := range cell.MoreSeries {
			ids[id] = true
		}
		vsym.Assert(cell.IsPoint == (len(points[at]) > 0), "points are points")
		vsym.Assert(len(points[at]) == 0 || points[at][cell.Series], "points before lines")
		for id := range lines[at] {
			vsym.Assert(ids[id], "each series in its name")
		}
		vsym.Assert(len(ids) == len(lines[at]), "in no other name")
	}
	vsym.Reach("series")
}
