package plot

import vsym "sigs.k8s.io/instrumentation-tools/zzvsym"

func init() {
	vsym.Register("VD05_many", VD05_many)
}

// Many series of many samples, one of which has any value.
func VD05_many() {
	vsym.MaxSteps(40000000)
	n, points := vsym.Bound("many series", 20, 50), vsym.Bound("many samples", 120, 500)
	where := vsym.Choice("where", 3)
	var set SeriesSet
	y := vsym.Float64("y")
	vsym.Assume(vFinite(y))
	for i := 0; i < n; i++ {
		var pts []Point
		for j := 0; j < points; j++ {
			p := vPoint{int64(1000*j + i), float64(100*i + j*j%17)}
			if i == where*(n-1)/2 && j == where*(points-1)/2 {
				p.y = y
			}
			pts = append(pts, p)
		}
		set = append(set, vSeries{id: SeriesId(i + 1), pts: pts})
	}
	g := DataToPlatonicGraph(set, AutoAxes())
	vsym.Assert(len(g.Series) == n, "every series")
	vsym.Assert(g.DomainMin == 0 && g.DomainMax == int64(1000*(points-1)+n-1), "domain is tight")
	lo, hi := 0.0, float64(100*(n-1)+16)
	if where == 0 {
		lo = 0 // taken again by a later sample
	}
	vsym.Assert(vsym.And(g.RangeMin <= y, g.RangeMax >= y), "value outside the range")
	vsym.Assert(vsym.And(g.RangeMin <= lo, g.RangeMax >= hi), "value outside the range")
	vsym.Assert(vsym.And(vsym.Or(g.RangeMin == lo, g.RangeMin == y), vsym.Or(g.RangeMax == hi, g.RangeMax == y)), "range is tight")
	vsym.Assume(vsym.And(y >= lo, y <= hi))

	size := ScreenSize{Rows: 100, Cols: 160}
	g.PlatonicAxes.RangeMin, g.PlatonicAxes.RangeMax = lo, hi
	s := g.ToScreen(vIdent, size)
	dom, rng := g.ScalePlatonicToScreen(vIdent, size)
	vsym.Assert(len(s.Series) == n, "one screen series per series")
	for i, ser := range s.Series {
		vsym.Assert(ser.Id == SeriesId(i+1), "series in order")
		pts, k := set[i].Points(), 0
		for q, px := range ser.Points {
			vsym.Assert(q == 0 || ser.Points[q-1].Col < px.Col, "left to right")
			vsym.Assert(len(px.OriginalPoints) > 0, "pixel without a sample")
			sum := Row(0)
			for _, o := range px.OriginalPoints {
				vsym.Assert(k < len(pts) && o.X() == pts[k].X() && o.Y() == pts[k].Y(), "samples in order")
				vsym.Assert(dom(o.X()) == px.Col, "sample in its column")
				sum += rng(o.Y())
				k++
			}
			vsym.Assert(px.Row == sum/Row(len(px.OriginalPoints)), "average height")
		}
		vsym.Assert(k == len(pts), "every sample drawn")
	}
	vsym.Reach("many")
}
