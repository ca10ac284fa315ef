package plot

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VD04_domain", VD04_domain)
	vsym.Register("VD04_range", VD04_range)
	vsym.Register("VD04_rangeRows", VD04_rangeRows)
}

// Domain ticks: values inside the data's domain, strictly left to right,
// starting at the first time stamp and ending in the last one's column.
func VD04_domain() {
	maxSpan := vsym.Bound("largest domain span", 48, 600)
	// a density of 1 asks for more ticks than the plot has columns
	shape := vsym.Choice("shape", vsym.Bound("shapes", 5, 9))
	cols := []int{6, 23, 41, 6, 41, 6, 23, 41, 100}[shape]
	density := []int{1, 3, 10, 3, 1, 10, 10, 3, 2}[shape]
	npts := []int{1, 2, 4, 60}[vsym.Choice("points", 4)]
	start := vsym.Int64Range("start", -3, 1600000000000)
	// the span is enumerated by forking, the position stays symbolic
	span := int64(vsym.Concrete(vsym.IntRange("span", 0, maxSpan)))
	g := &PlatonicGraph{
		Series:       SeriesSet{vSeries{id: 1, pts: make([]Point, npts)}},
		PlatonicAxes: PlatonicAxes{DomainMin: start, DomainMax: start + span, RangeMin: 0, RangeMax: 1},
	}
	t := EvenlySpacedTicks(g, ScreenSize{Rows: 9, Cols: Column(cols)}, TickScaling{RangeScale: vIdent, RangeDensity: 3, DomainDensity: density},
		Labeling{DomainLabeler: func(int64) string { return "D" }, RangeLabeler: func(float64) string { return "R" }, LineSize: 1})
	vsym.Assert(len(t.DomainTicks) > 0, "no tick")
	vsym.Assert(t.DomainTicks[0].Value == start, "first tick at the start")
	for i, tk := range t.DomainTicks {
		vsym.Assert(tk.Value >= start && tk.Value <= start+span, "tick value outside the data")
		vsym.Assert(tk.Col >= 0 && tk.Col < t.InnerGraphSize.Cols, "tick outside the graph")
		if i > 0 {
			vsym.Assert(t.DomainTicks[i-1].Col < tk.Col, "ticks left to right")
			vsym.Assert(t.DomainTicks[i-1].Value < tk.Value, "tick values increasing")
		}
	}
	vsym.Reach("ticks")
}

func vRangeTicks(g *PlatonicGraph, rows, cols, density int) *ScreenTicks {
	return EvenlySpacedTicks(g, ScreenSize{Rows: Row(rows), Cols: Column(cols)}, TickScaling{RangeScale: vIdent, RangeDensity: density, DomainDensity: 10},
		Labeling{DomainLabeler: func(int64) string { return "D" }, RangeLabeler: func(float64) string { return "R" }, LineSize: 1})
}

// Range ticks: computed in bounded time, inside the graph, first at the
// smallest value, values increasing and inside the data's range.
func VD04_range() {
	mm := [][2]float64{{0, 1}, {-3, 1e9}, {5, 5}, {0, 0}, {-7, -7}, {1e18, 1e18 + 256}}[vsym.Choice("minmax", 6)]
	cols := []int{4, 18}[vsym.Choice("cols", 2)]
	density := []int{3, 10}[vsym.Choice("density", 2)]
	rows := []int{1, 5, 16}[vsym.Choice("rows", 3)]
	if vsym.Tier() == "thorough" {
		rows = vsym.IntRange("any rows", 1, 50)
	}
	g := &PlatonicGraph{
		PlatonicAxes: PlatonicAxes{DomainMin: 0, DomainMax: 10, RangeMin: mm[0], RangeMax: mm[1]},
	}
	vsym.MaxSteps(100000)
	t := vRangeTicks(g, rows, cols, density)
	vsym.Assert(len(t.RangeTicks) > 0, "no tick")
	vsym.Assert(t.RangeTicks[0].Value == mm[0], "first tick at the minimum")
	if t.InnerGraphSize.Rows > 0 && t.InnerGraphSize.Cols > 0 {
		for i, tk := range t.RangeTicks {
			vsym.Assert(vsym.And(tk.Value >= mm[0], tk.Value <= mm[1]), "tick value outside the data")
			vsym.Assert(vsym.And(tk.Row >= 0, tk.Row < t.InnerGraphSize.Rows), "tick outside the graph")
			vsym.Assert(tk.Label == "R", "label")
			if i > 0 {
				vsym.Assert(t.RangeTicks[i-1].Value < tk.Value, "tick values increasing")
			}
		}
	}
	vsym.Reach("ticks")
}

// Two range ticks never share a row.
func VD04_rangeRows() {
	rows := 3 + vsym.Choice("rows", vsym.Bound("rows", 8, 30))
	lo := []float64{0, -7, 2.5}[vsym.Choice("lo", 3)]
	g := &PlatonicGraph{
		PlatonicAxes: PlatonicAxes{DomainMin: 0, DomainMax: 10, RangeMin: lo, RangeMax: lo + 3},
	}
	t := vRangeTicks(g, rows, vsym.Concrete(vsym.IntRange("cols", 3, 40)), 3)
	if t.InnerGraphSize.Rows > 0 && t.InnerGraphSize.Cols > 0 {
		for i, tk := range t.RangeTicks {
			if i > 0 {
				vsym.Assert(t.RangeTicks[i-1].Row != tk.Row, "two range ticks on one row")
				vsym.Assert(t.RangeTicks[i-1].Row >= tk.Row, "ticks bottom to top")
			}
		}
	}
	vsym.Reach("rows")
}
