package term

import (
	"fmt"

	"sigs.k8s.io/instrumentation-tools/promq/term/plot"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VD06_many", VD06_many)
}

// Many series of many samples, on a large screen.
func VD06_many() {
	vsym.MaxSteps(40000000)
	n, points := vsym.Bound("many series", 12, 30), vsym.Bound("many samples", 60, 200)
	dim := [][2]int{{80, 24}, {200, 50}, {11, 60}}[vsym.Choice("size", vsym.Bound("large sizes", 2, 3))]
	var ids []plot.SeriesId
	var pts [][]vGPoint
	for i := 0; i < n; i++ {
		ids = append(ids, plot.SeriesId(1+i))
		var ps []vGPoint
		for j := 0; j < points; j++ {
			ps = append(ps, vGPoint{int64(1605700000000 + 1000*j), float64(i*100 + (j*j*7)%(13+i))})
		}
		pts = append(pts, ps)
	}
	g := plot.DataToPlatonicGraph(vGSet(ids, pts...), plot.AutoAxes())
	view := &GraphView{
		Graph:         g,
		RangeLabeler:  func(v float64) string { return fmt.Sprintf("%.1f", v) },
		DomainLabeler: func(v int64) string { return fmt.Sprintf("%d", v%1000000) },
	}
	vCheckGraph(view, g, dim[0], dim[1])
}
