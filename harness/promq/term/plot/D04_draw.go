package plot

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VD04_labels", VD04_labels)
	vsym.Register("VD04_draw", VD04_draw)
}

// The margins fit the longest label, wherever in the list it is; every tick
// has the label made for its value and stands in that value's row or column;
// the plot gets what the margins leave.
func VD04_labels() {
	mm := [][2]float64{{-3, 1e9}, {5, 5}, {-2.5, 7.5}, {0, 1}}[vsym.Choice("minmax", vsym.Bound("value ranges", 3, 4))]
	span := []int64{0, 1, 10, 86400000}[vsym.Choice("span", 4)]
	start := vsym.Int64Range("start", -1<<40, 1<<41)
	rows := []int{3, 6, 8, 50}[vsym.Choice("rows", vsym.Bound("heights", 3, 4))]
	cols := []int{1, 3, 9, 41, 100}[vsym.Choice("cols", 5)]
	density := []int{1, 3, 10}[vsym.Choice("density", vsym.Bound("densities", 2, 3))+vsym.Bound("skipped densities", 1, 0)]
	npts := []int{0, 51, 4}[vsym.Choice("points", vsym.Bound("series lengths", 2, 3))]
	domLong := vsym.Choice("long time label", vsym.Bound("long label positions", 4, 8))
	rngLong := 3 - domLong
	if vsym.Tier() == "thorough" {
		rngLong = vsym.Choice("long value label", 8)
	}
	lines := npts % 2

	var doms []int64
	var rngs []float64
	text := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	mr, mc := lines, lines
	g := &PlatonicGraph{
		Series:       SeriesSet{vSeries{id: 1, pts: make([]Point, npts/2)}, vSeries{id: 2, pts: make([]Point, npts)}},
		PlatonicAxes: PlatonicAxes{DomainMin: start, DomainMax: start + span, RangeMin: mm[0], RangeMax: mm[1]},
	}
	// the first two bytes of a label tell which call made it
	label := func(i int, long bool) string {
		l := "" + text[i:i+1] + text[i/60:i/60+1]
		if long {
			l += "xyz"
		}
		return l
	}
	t := EvenlySpacedTicks(g, ScreenSize{Rows: Row(rows), Cols: Column(cols)}, TickScaling{RangeScale: vIdent, RangeDensity: density, DomainDensity: density},
		Labeling{
			DomainLabeler: func(v int64) string {
				l := label(len(doms), len(doms) == domLong)
				mr = vMax(mr, len(l)+lines)
				doms = append(doms, v)
				return l
			},
			RangeLabeler: func(v float64) string {
				l := label(len(rngs), len(rngs) == rngLong)
				mc = vMax(mc, len(l)+lines)
				rngs = append(rngs, v)
				return l
			}, LineSize: lines})
	ir, ic := int(t.InnerGraphSize.Rows), int(t.InnerGraphSize.Cols)
	if rows <= mr || cols <= mc {
		vsym.Assert(vsym.Or(ir == 0, ic == 0), "no room for the plot") // nobody draws then
		vsym.Reach("too small")
		return
	}
	vsym.Assert(ir == rows-mr && ic == cols-mc, "the plot gets what the margins leave")
	vsym.Assert(int(t.MarginRows) == mr && int(t.MarginCols) == mc, "margins")
	vsym.Assert(t.LineSize == lines, "line size")
	which := func(l string) int {
		vsym.Assert(len(l) >= 2, "label")
		for i := 0; i < len(doms)+len(rngs); i++ {
			if l[:2] == label(i, false) {
				return i
			}
		}
		vsym.Fail("label")
		return 0
	}
	n := len(t.DomainTicks)
	vsym.Assert(n > 0, "no tick")
	vsym.Assert(t.DomainTicks[0].Value == start, "tick at the first time")
	vsym.Assert(int(t.DomainTicks[n-1].Col) == vsym.Ite(span == 0, 0, ic-1), "tick at the last time")
	for i, tk := range t.DomainTicks {
		vsym.Assert(tk.Value == doms[which(tk.Label)], "label of another time")
		vsym.Assert(vsym.And(tk.Value >= start, tk.Value <= start+span), "time outside the data")
		if span > 0 {
			d := int64(tk.Col)*span - (tk.Value-start)*int64(ic-1)
			vsym.Assert(vsym.And(d <= span, d >= -span), "column of another time")
		}
		vsym.Assert(i == 0 || t.DomainTicks[i-1].Col < tk.Col, "two times in one column")
	}
	vsym.Assert(len(t.RangeTicks) > 0, "no tick")
	vsym.Assert(t.RangeTicks[0].Value == mm[0], "tick at the smallest value")
	for _, tk := range t.RangeTicks {
		vsym.Assert(tk.Value == rngs[which(tk.Label)], "label of another value")
		vsym.Assert(tk.Value >= mm[0] && tk.Value <= mm[1], "value outside the data")
		vsym.Assert(vsym.And(tk.Row >= 0, int(tk.Row) < ir), "row outside the plot")
		if mm[1] > mm[0] {
			f := int((tk.Value - mm[0]) / (mm[1] - mm[0]) * 1024) // the height, in 1/1024
			d := (ir-1-int(tk.Row))*1024 - f*(ir-1)
			vsym.Assert(vsym.And(d <= 1024+ir, d >= -1024-ir), "row of another value")
		} else {
			vsym.Assert(int(tk.Row) == ir-1, "row of another value")
		}
	}
	vsym.Reach("ticks")
}

// Drawing any axes stays on the screen, draws both axes in full with their
// corner, and writes every label next to its tick.
func VD04_draw() {
	ir := 1 + vsym.Choice("plot rows", vsym.Bound("plot rows", 3, 5))
	ic := 1 + vsym.Choice("plot cols", vsym.Bound("plot cols", 3, 5))
	lines := 1
	nd := vsym.Choice("time ticks", vsym.Bound("time ticks", 3, 4))
	nr := vsym.Choice("value ticks", vsym.Bound("value ticks", 3, 4))
	mr, mc := lines, lines
	t := &ScreenTicks{InnerGraphSize: ScreenSize{Rows: Row(ir), Cols: Column(ic)}, LineSize: lines}
	labels := []string{"", "a", "bcd", "ef"}
	for i := 0; i < nd; i++ {
		l := labels[vsym.Choice("time label", 3)]
		mr = vMax(mr, lines+len(l))
		t.DomainTicks = append(t.DomainTicks, DomainTick{Col: Column(vsym.IntRange("col", 0, ic-1)), Label: l})
	}
	for i := 0; i < nr; i++ {
		l := labels[1+vsym.Choice("value label", 3)]
		mc = vMax(mc, lines+len(l))
		t.RangeTicks = append(t.RangeTicks, RangeTick{Row: Row(vsym.IntRange("row", 0, ir-1)), Label: l})
	}
	t.MarginRows, t.MarginCols = Row(mr), Column(mc)

	var out []vOut
	DrawAxes(t, func(row Row, col Column, cell rune, kind AxisCellKind) {
		vsym.Assert(vsym.And(row >= 0, int(row) < ir+mr), "drawn above or below the screen")
		vsym.Assert(vsym.And(col >= 0, int(col) < ic+mc), "drawn beside the screen")
		vsym.Assert(vsym.Or(int(row) >= ir, int(col) < mc), "drawn over the plot")
		out = append(out, vOut{row, col, cell, kind})
	})
	// the last thing drawn at a place
	kindAt := func(r, c int) int {
		k := -1
		for _, o := range out {
			k = vsym.Ite(vsym.And(int(o.row) == r, int(o.col) == c), int(o.kind), k)
		}
		return k
	}
	drawn := func(r, c int, cell rune, kind AxisCellKind) bool {
		f := false
		for _, o := range out {
			if o.kind == kind {
				f = vsym.Or(f, vsym.And(int(o.row) == r, int(o.col) == c, o.cell == cell))
			}
		}
		return f
	}
	vsym.Assert(kindAt(ir, mc-1) == int(AxisCornerKind), "corner")
	for r := 0; r < ir; r++ {
		tick := false
		for _, tk := range t.RangeTicks {
			tick = vsym.Or(tick, int(tk.Row) == r)
		}
		vsym.Assert(kindAt(r, mc-1) == vsym.Ite(tick, int(RangeTickKind), int(YAxisKind)), "value axis")
	}
	for c := 0; c < ic; c++ {
		k := kindAt(ir, mc+c)
		vsym.Assert(vsym.Or(k == int(XAxisKind), k == int(DomainTickKind)), "time axis")
	}
	ticks := 0
	for _, o := range out {
		if o.kind == DomainTickKind {
			ticks++
		}
	}
	vsym.Assert(ticks == nd, "one tick for every time")
	for _, tk := range t.DomainTicks {
		// the tick stands in the column or on its left edge, the label below it
		ok := false
		for shift := -1; shift <= 0; shift++ {
			here := drawn(ir, mc+int(tk.Col)+shift, ' ', DomainTickKind)
			for i, rn := range tk.Label {
				here = vsym.And(here, drawn(ir+lines+i, mc+int(tk.Col)+shift, rn, LabelKind))
			}
			ok = vsym.Or(ok, here)
		}
		vsym.Assert(ok, "tick and label of a time")
	}
	for _, tk := range t.RangeTicks {
		ok := drawn(int(tk.Row), mc-1, ' ', RangeTickKind)
		for i, rn := range tk.Label {
			ok = vsym.And(ok, drawn(int(tk.Row), mc-1-len(tk.Label)+i, rn, LabelKind))
		}
		vsym.Assert(ok, "tick and label of a value")
	}
	n := nd + nr + ir + ic + 1
	for _, tk := range t.DomainTicks {
		n += len(tk.Label)
	}
	for _, tk := range t.RangeTicks {
		n += len(tk.Label)
	}
	vsym.Assert(len(out) == n, "nothing else drawn")
	vsym.Reach("drawn")
}

type vOut struct {
	row  Row
	col  Column
	cell rune
	kind AxisCellKind
}
