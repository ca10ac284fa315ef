package plot

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VD02_domain", VD02_domain)
	vsym.Register("VD02_range", VD02_range)
	vsym.Register("VD02_scale", VD02_scale)
}

// Time stamps map into the screen's columns, the first to the left edge, the
// last to the right edge, and later ones never further left.
func VD02_domain() {
	cols := []int{1, 2, 80, 160, 333}[vsym.Choice("cols", 5)]
	start := []int64{0, -5, 1600000000000}[vsym.Choice("start", 3)]
	span := []int64{0, 1, 7, 300000, 1 << 40, 1 << 61}[vsym.Choice("span", 6)]
	g := PlatonicGraph{PlatonicAxes: PlatonicAxes{DomainMin: start, DomainMax: start + span, RangeMin: 0, RangeMax: 1}}
	dom, _ := g.ScalePlatonicToScreen(vIdent, ScreenSize{Rows: 4, Cols: Column(cols)})
	off := vsym.Int64Range("x", 0, span)
	x := start + off
	c := dom(x)
	vsym.Assert(c >= 0, "left of the screen")
	vsym.Assert(int(c) < cols, "right of the screen")
	vsym.Assert(dom(start) == 0, "first at the left edge")
	if span > 0 {
		vsym.Assert(int(dom(start+span)) == cols-1, "last at the right edge")
		// linear: between any two anchors on the ideal line it is between their columns
		lo, hi := 0, cols-1
		n := vAnchors(cols)
		for k := 1; k < n; k++ {
			at := (cols - 1) * k / n // ideal column, rounded down, of the time at
			t := span/int64(n)*int64(k) + span%int64(n)*int64(k)/int64(n)
			vsym.Assert(vAbs(int(dom(start+t))-at) <= 1+(cols-1)/int(vMin64(span, 4096)), "anchor")
			lo = vsym.Ite(off >= t, vMax(at-1-(cols-1)/int(vMin64(span, 4096)), 0), lo)
			hi = vsym.Ite(vsym.And(off <= t, hi == cols-1), vMin(at+1+(cols-1)/int(vMin64(span, 4096)), cols-1), hi)
		}
		vsym.Assert(vsym.And(int(c) >= lo, int(c) <= hi), "off the ideal line")
		if span <= 300000 {
			d := int64(c)*span - off*int64(cols-1)
			vsym.Assert(vsym.And(d <= span, d >= -span), "more than a pixel off the ideal line")
		}
	}
	vsym.Reach("in")
}

// Values map into the screen's rows, the smallest to row 0, the largest to the
// top row.
func VD02_range() {
	rows := []int{1, 4, 100}[vsym.Choice("rows", 3)]
	mm := [][2]float64{{0, 1}, {-3, 1e9}, {0.1, 0.3}, {5, 5}, {-7, -7}}[vsym.Choice("minmax", 5)]
	g := PlatonicGraph{PlatonicAxes: PlatonicAxes{DomainMin: 0, DomainMax: 1, RangeMin: mm[0], RangeMax: mm[1]}}
	_, rng := g.ScalePlatonicToScreen(vIdent, ScreenSize{Rows: Row(rows), Cols: 9})
	y := vsym.Float64("y")
	vsym.Assume(vsym.And(y >= mm[0], y <= mm[1]))
	r := rng(y)
	vsym.Assert(r >= 0, "below the screen")
	vsym.Assert(int(r) < rows, "above the screen")
	vsym.Assert(rng(mm[0]) == 0, "minimum on the bottom row")
	if mm[1] > mm[0] {
		vsym.Assert(int(rng(mm[1])) == rows-1, "maximum on the top row")
		lo, hi := 0, rows-1
		n := vAnchors(rows)
		for k := 1; k < n; k++ {
			at := (rows - 1) * k / n
			v := mm[0] + (mm[1]-mm[0])*float64(k)/float64(n)
			vsym.Assert(vAbs(int(rng(v))-at) <= 1, "anchor")
			lo = vsym.Ite(y >= v, vMax(at-1, 0), lo)
			hi = vsym.Ite(vsym.And(y <= v, hi == rows-1), vMin(at+1, rows-1), hi)
		}
		vsym.Assert(vsym.And(int(r) >= lo, int(r) <= hi), "off the ideal line")
	}
	vsym.Reach("in")
}

// Values on a scale that is not the identity: rows are linear in the scaled
// value.
func VD02_scale() {
	rows := []int{2, 8, 100}[vsym.Choice("rows", 3)]
	mm := [][2]float64{{1, 9}, {-3, 1e6}, {100, 104}}[vsym.Choice("minmax", 3)]
	scale := []RangeScale{
		func(v float64) float64 { return 2*v + 8 },
		func(v float64) float64 { return -1 / (v + 4) },
	}[vsym.Choice("scale", 2)]
	g := PlatonicGraph{PlatonicAxes: PlatonicAxes{DomainMin: 0, DomainMax: 1, RangeMin: mm[0], RangeMax: mm[1]}}
	_, rng := g.ScalePlatonicToScreen(scale, ScreenSize{Rows: Row(rows), Cols: 9})
	y := vsym.Float64("y")
	vsym.Assume(vsym.And(y >= mm[0], y <= mm[1]))
	r := int(rng(y))
	lo, hi := 0, rows-1
	n := vAnchors(rows)
	for k := 0; k <= n; k++ {
		v := mm[0] + (mm[1]-mm[0])*float64(k)/float64(n)
		at := int((scale(v) - scale(mm[0])) / (scale(mm[1]) - scale(mm[0])) * float64(rows-1))
		vsym.Assert(vAbs(int(rng(v))-at) <= 1, "anchor")
		lo = vsym.Ite(y >= v, vMax(at-1, 0), lo)
		hi = vsym.Ite(vsym.And(y <= v, hi == rows-1), vMin(at+1, rows-1), hi)
	}
	vsym.Assert(vsym.And(r >= lo, r <= hi), "off the scaled line")
	vsym.Assert(rng(mm[0]) == 0, "minimum on the bottom row")
	vsym.Assert(int(rng(mm[1])) == rows-1, "maximum on the top row")
	vsym.Reach("scaled")
}

// How many stretches the ideal line is cut into.
func vAnchors(px int) int {
	n := vsym.Bound("anchors on the ideal line", 6, 24)
	return vMax(vMin(n, px-1), 1)
}

func vMin64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
