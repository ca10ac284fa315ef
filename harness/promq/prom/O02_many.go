package prom

import (
	"strconv"
	"strings"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/promql"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VO02_many", VO02_many)
}

// Many samples with many and long labels, or series of many points.
func VO02_many() {
	color.NoColor = vsym.Choice("no colours", 2) == 1
	n := vsym.Bound("many samples", 120, 600)
	res := &promql.Result{}
	var js, ys []string
	if vsym.Choice("matrix", 2) == 1 {
		s := promql.Series{Metric: nil}
		var pjs, pys []string
		for i := 0; i < n; i++ {
			s.Points = append(s.Points, promql.Point{T: int64(i) * 1000, V: float64(i)})
			pjs = append(pjs, "["+strconv.Itoa(i)+`,"`+strconv.Itoa(i)+`"]`)
			pys = append(pys, "- t: "+strconv.Itoa(i*1000)+" v: "+strconv.Itoa(i))
		}
		res.Value = promql.Matrix{s, {Metric: nil, Points: s.Points[:1]}}
		js = []string{`{"metric":{},"values":[` + strings.Join(pjs, ",") + `]}`, `{"metric":{},"values":[` + pjs[0] + `]}`}
		ys = []string{"- metric: {} points: " + strings.Join(pys, " "), "- metric: {} points: " + pys[0]}
	} else {
		vec := vManySamples(n)
		res.Value = vec
		for i, s := range vec {
			var lj, ly []string
			for _, l := range s.Metric {
				lj = append(lj, strconv.Quote(l.Name)+":"+strconv.Quote(l.Value))
				v := l.Value
				if _, err := strconv.Atoi(v); err == nil {
					v = strconv.Quote(v)
				}
				ly = append(ly, l.Name+": "+v)
			}
			v := strconv.FormatFloat(s.V, 'f', -1, 64)
			js = append(js, `{"metric":{`+strings.Join(lj, ",")+`},"value":[`+strconv.Itoa(i)+`,"`+v+`"]}`)
			ys = append(ys, "- point: t: "+strconv.Itoa(i*1000)+" v: "+v+" metric: "+strings.Join(ly, " "))
		}
	}
	if vsym.Choice("yaml", 2) == 1 {
		out, err := ToPrettyFormat(res, "yaml", false)
		vsym.Assert(err == nil, "formatted")
		vsym.Assert(strings.Join(strings.Fields(*out), " ") == strings.Join(ys, " "), "the result in YAML")
		vsym.Reach("yaml")
		return
	}
	out, err := ToPrettyFormat(res, "json", vsym.Choice("coloured", 2) == 1)
	vsym.Assert(err == nil, "formatted")
	p := &vJSON{s: vPlain(*out)}
	got := p.value()
	vsym.Assert(got == (&vJSON{s: "[" + strings.Join(js, ",") + "]"}).value(), "the result in JSON")
	vsym.Reach("json")
}
