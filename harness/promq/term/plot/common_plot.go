package plot

// A data point and a series for the harnesses.
type vPoint struct {
	x int64
	y float64
}

func (p vPoint) X() int64   { return p.x }
func (p vPoint) Y() float64 { return p.y }

type vSeries struct {
	id  SeriesId
	pts []Point
}

func (s vSeries) Title() string   { return "s" }
func (s vSeries) Id() SeriesId    { return s.id }
func (s vSeries) Points() []Point { return s.pts }

func vIdent(f float64) float64 { return f }

func vMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func vMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func vAbs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
