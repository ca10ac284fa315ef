package plot

import (
	"math"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VD05_bounds", VD05_bounds)
	vsym.Register("VD05_columns", VD05_columns)
	vsym.Register("VD05_anyvalue", VD05_anyvalue)
	vsym.Register("VD05_previous", VD05_previous)
}

func vFinite(f float64) bool {
	return vsym.And(f >= -math.MaxFloat64, f <= math.MaxFloat64)
}

// The axes are exactly the extremes of the data.
func VD05_bounds() {
	max := vsym.Bound("points per series", 2, 3)
	var set SeriesSet
	var xs []int64
	var ys []float64
	for s := 0; s < 2; s++ {
		n := vsym.Choice("n", max+1)
		var pts []Point
		var last int64
		for i := 0; i < n; i++ {
			x, y := vsym.Int64("x"), vsym.Float64("y")
			vsym.Assume(vFinite(y))
			if i > 0 {
				vsym.Assume(last < x)
			}
			last = x
			pts = append(pts, vPoint{x, y})
			xs, ys = append(xs, x), append(ys, y)
		}
		set = append(set, vSeries{id: SeriesId(s + 1), pts: pts})
	}
	g := DataToPlatonicGraph(set, AutoAxes())
	vsym.Assert(len(g.Series) == 2, "series kept")
	if len(xs) == 0 {
		return
	}
	minX, maxX, minY, maxY := false, false, false, false
	for i := range xs {
		vsym.Assert(vsym.And(g.DomainMin <= xs[i], xs[i] <= g.DomainMax), "time outside the domain")
		vsym.Assert(vsym.And(g.RangeMin <= ys[i], ys[i] <= g.RangeMax), "value outside the range")
		minX = vsym.Or(minX, g.DomainMin == xs[i])
		maxX = vsym.Or(maxX, g.DomainMax == xs[i])
		minY = vsym.Or(minY, g.RangeMin == ys[i])
		maxY = vsym.Or(maxY, g.RangeMax == ys[i])
	}
	vsym.Assert(vsym.And(minX, maxX), "domain is tight")
	vsym.Assert(vsym.And(minY, maxY), "range is tight")
	vsym.Reach("bounds")
}

// Every sample ends up in exactly one pixel, pixels go left to right, and a
// pixel holding several samples is at their average height.
func VD05_columns() {
	n := vsym.Choice("n", vsym.Bound("samples", 4, 5))
	g := &PlatonicGraph{PlatonicAxes: PlatonicAxes{DomainMin: 100, DomainMax: 107, RangeMin: -2, RangeMax: 5}}
	var pts []Point
	last := int64(99)
	for i := 0; i < n; i++ {
		x := vsym.Int64Range("x", 100, 107)
		vsym.Assume(last < x)
		last = x
		pts = append(pts, vPoint{x, float64(vsym.IntRange("y", -2, 5))})
	}
	g.Series = SeriesSet{vSeries{id: 9, pts: pts}}
	size := ScreenSize{Rows: 8, Cols: 4}
	s := g.ToScreen(vIdent, size)
	vsym.Assert(s.ScreenSize == size && len(s.Series) == 1 && s.Series[0].Id == 9, "one screen series per series")
	dom, rng := g.ScalePlatonicToScreen(vIdent, size)
	k := 0
	for i, px := range s.Series[0].Points {
		vsym.Assert(vsym.And(px.Col >= 0, px.Col < 4), "column")
		vsym.Assert(vsym.And(px.Row >= 0, px.Row < 8), "row")
		if i > 0 {
			vsym.Assert(s.Series[0].Points[i-1].Col < px.Col, "left to right")
		}
		vsym.Assert(len(px.OriginalPoints) > 0, "pixel without a sample")
		sum := Row(0)
		for _, o := range px.OriginalPoints {
			vsym.Assert(k < n && o.X() == pts[k].X() && o.Y() == pts[k].Y(), "samples in order")
			vsym.Assert(dom(o.X()) == px.Col, "sample in its column")
			sum += rng(o.Y())
			k++
		}
		vsym.Assert(px.Row == sum/Row(len(px.OriginalPoints)), "average height")
	}
	vsym.Assert(k == n, "every sample drawn")
	vsym.Reach("columns")
}

// Any 64-bit float in the data (NaN and infinities included) leaves the other
// samples on screen and every pixel inside the graph.
func VD05_anyvalue() {
	y := vsym.Float64("y")
	pts := []Point{vPoint{0, 0}, vPoint{1, y}, vPoint{2, 1}}
	set := SeriesSet{vSeries{id: 1, pts: pts}, vSeries{id: 2}}
	g := DataToPlatonicGraph(set, AutoAxes())
	s := g.ToScreen(vIdent, ScreenSize{Rows: 4, Cols: 6})
	vsym.Assert(len(s.Series) == 2, "series kept")
	n := 0
	for _, px := range s.Series[0].Points {
		vsym.Assert(vsym.And(px.Col >= 0, px.Col < 6), "column")
		vsym.Assert(vsym.And(px.Row >= 0, px.Row < 4), "row")
		n++
	}
	vsym.Assert(n >= 2, "finite samples drawn")
	vsym.Reach("any")
}

// Graphs that follow each other, of arbitrary values, NaN and infinities
// included: the domain is that of the new samples, the range also covers that
// of the graphs before, and nothing else.
func VD05_previous() {
	axes := AutoAxes()
	var ys []float64
	n := vsym.Bound("graphs", 2, 3)
	for i := 0; i < n; i++ {
		var xs []int64
		var set SeriesSet
		for s, k := 0, 1+vsym.Choice("series", 2-i%2); s < k; s++ {
			x, y := vsym.Int64("x"), vsym.Float64("y")
			set = append(set, vSeries{id: SeriesId(s + 1), pts: []Point{vPoint{x, y}}})
			xs, ys = append(xs, x), append(ys, y)
		}
		g := DataToPlatonicGraph(set, AutoAxes().WithPreviousRange(axes))
		axes = g.PlatonicAxes
		vsym.Assert(vsym.And(axes.DomainMin == vEarliest(xs), axes.DomainMax == vLatest(xs)), "domain of the new samples")
		any, min, max := false, false, false
		for _, y := range ys {
			f := vFinite(y)
			any = vsym.Or(any, f)
			vsym.Assert(vsym.Implies(f, vsym.And(axes.RangeMin <= y, y <= axes.RangeMax)), "value outside the range")
			min = vsym.Or(min, vsym.And(f, y == axes.RangeMin))
			max = vsym.Or(max, vsym.And(f, y == axes.RangeMax))
		}
		vsym.Assert(vsym.Implies(any, vsym.And(min, max)), "range is tight")
	}
	vsym.Reach("continued")
}

func vEarliest(xs []int64) int64 {
	m := xs[0]
	if len(xs) > 1 && xs[1] < m {
		m = xs[1]
	}
	return m
}
func vLatest(xs []int64) int64 {
	m := xs[0]
	if len(xs) > 1 && xs[1] > m {
		m = xs[1]
	}
	return m
}
