package prom

import (
	"errors"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/fatih/color"
	"github.com/prometheus/prometheus/pkg/labels"
	"github.com/prometheus/prometheus/promql"
	"github.com/prometheus/prometheus/storage"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VO02_json", VO02_json)
	vsym.Register("VO02_yaml", VO02_yaml)
}

// vJSON reads JSON text: it gives the same text for equal values, whatever
// their layout.
type vJSON struct {
	s string
	i int
}

func (p *vJSON) space() {
	for p.i < len(p.s) && strings.IndexByte(" \t\r\n", p.s[p.i]) >= 0 {
		p.i++
	}
}

func (p *vJSON) bad() {
	vsym.Fail("not JSON: " + p.s)
}

func (p *vJSON) is(c byte) bool {
	p.space()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *vJSON) str() string {
	var out []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out)
		case c < ' ':
			p.bad()
		case c != '\\':
			out = append(out, c)
		default:
			if p.i >= len(p.s) {
				p.bad()
			}
			c = p.s[p.i]
			p.i++
			if c != 'u' {
				j := strings.IndexByte("\"\\/bfnrt", c)
				if j < 0 {
					p.bad()
				}
				out = append(out, "\"\\/\b\f\n\r\t"[j])
				continue
			}
			if p.i+4 > len(p.s) {
				p.bad()
			}
			v, err := strconv.ParseUint(p.s[p.i:p.i+4], 16, 32)
			if err != nil {
				p.bad()
			}
			p.i += 4
			var b [4]byte
			out = append(out, b[:utf8.EncodeRune(b[:], rune(v))]...)
		}
	}
	p.bad()
	return ""
}

func (p *vJSON) value() string {
	switch {
	case p.is('"'):
		return strconv.Quote(p.str())
	case p.is('['):
		var out []string
		for !p.is(']') {
			if len(out) > 0 && !p.is(',') {
				p.bad()
			}
			out = append(out, p.value())
		}
		return "[" + strings.Join(out, ",") + "]"
	case p.is('{'):
		var out []string
		for !p.is('}') {
			if len(out) > 0 && !p.is(',') || !p.is('"') {
				p.bad()
			}
			k := strconv.Quote(p.str())
			if !p.is(':') {
				p.bad()
			}
			out = append(out, k+":"+p.value())
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ",") + "}"
	}
	from := p.i
	for p.i < len(p.s) && strings.IndexByte("+-.0123456789eEnul", p.s[p.i]) >= 0 {
		p.i++
	}
	w := p.s[from:p.i]
	if w == "null" {
		return w
	}
	v, err := strconv.ParseFloat(w, 64)
	if err != nil {
		p.bad()
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}

func vPlain(s string) string {
	for {
		i := strings.Index(s, "\x1b[")
		if i < 0 {
			return s
		}
		j := strings.IndexByte(s[i:], 'm')
		if j < 0 {
			return s
		}
		s = s[:i] + s[i+j+1:]
	}
}

var vPoints = []struct {
	t          int64
	v          float64
	json, yaml string // what they are given as
}{
	{1500, -2.5, `[1.5,"-2.5"]`, "t: 1500 v: -2.5"},
	{-7, math.Inf(1), `[-0.007,"+Inf"]`, "t: -7 v: .inf"},
	{1600000000123, 1e20, `[1.600000000123e+09,"100000000000000000000"]`, "t: 1600000000123 v: 1e+20"},
	{0, math.NaN(), `[0,"NaN"]`, "t: 0 v: .nan"},
	{60000, 0.0625, `[60,"0.0625"]`, "t: 60000 v: 0.0625"},
}

var vMetrics = []struct {
	m          []string
	json, yaml string
}{
	{[]string{"__name__", "m", "a", "x", "b", "y z"}, `{"__name__":"m","a":"x","b":"y z"}`, "__name__: m a: x b: y z"},
	{[]string{"a", "5"}, `{"a":"5"}`, `a: "5"`},
	{nil, `{}`, "{}"},
	{[]string{"a", "<\"\n\\é>%d"}, `{"a":"<\"\n\\é>%d"}`, `a: |- <" \é>%d`},
}

// vAnswer: a result, and what it is in JSON and YAML.
func vAnswer() (res *promql.Result, json []string, yaml []string, kept func() bool) {
	point := func() (promql.Point, string, string) {
		p := vPoints[vsym.Choice("point", len(vPoints))]
		return promql.Point{T: p.t, V: p.v}, p.json, p.yaml
	}
	res = &promql.Result{}
	if vsym.Choice("warnings", 2) == 1 {
		res.Warnings = storage.Warnings{errors.New("careful")}
	}
	kept = func() bool { return true }
	switch vsym.Choice("kind", 4) {
	case 0:
		n := vsym.Choice("samples", vsym.Bound("samples", 3, 4))
		vec := promql.Vector{}
		var js, ys []string
		for i := 0; i < n; i++ {
			k := i
			if n < 3 {
				k = vsym.Choice("metric", len(vMetrics))
			}
			m := vMetrics[k]
			p, pj, py := promql.Point{T: 60000, V: 0.0625}, vPoints[4].json, vPoints[4].yaml
			if i == 0 {
				p, pj, py = point()
			}
			vec = append(vec, promql.Sample{Point: p, Metric: labels.FromStrings(m.m...)})
			js = append(js, `{"metric":`+m.json+`,"value":`+pj+`}`)
			ys = append(ys, "- point: "+py+" metric: "+m.yaml)
		}
		res.Value = vec
		json, yaml = []string{"[" + strings.Join(js, ",") + "]"}, []string{strings.Join(ys, " ")}
		if n == 0 {
			yaml = []string{"[]"}
			if vsym.Choice("none", 2) == 1 {
				res.Value = promql.Vector(nil)
				json = append(json, "null")
			}
		}
		first := append(promql.Vector{}, vec...)
		kept = func() bool {
			for i := range first {
				if !labels.Equal(vec[i].Metric, first[i].Metric) || vec[i].T != first[i].T {
					return false
				}
			}
			return true
		}
	case 1:
		n := 1 + vsym.Choice("series", 2)
		mat := promql.Matrix{}
		var js, ys []string
		for i := 0; i < n; i++ {
			m := vMetrics[i]
			s := promql.Series{Metric: labels.FromStrings(m.m...)}
			var pjs, pys []string
			for j := 0; j <= i; j++ {
				p, pj, py := promql.Point{T: 60000, V: 0.0625}, vPoints[4].json, vPoints[4].yaml
				if j == 0 {
					p, pj, py = point()
				}
				s.Points = append(s.Points, p)
				pjs, pys = append(pjs, pj), append(pys, "- "+py)
			}
			mat = append(mat, s)
			js = append(js, `{"metric":`+m.json+`,"values":[`+strings.Join(pjs, ",")+`]}`)
			ys = append(ys, "- metric: "+m.yaml+" points: "+strings.Join(pys, " "))
		}
		res.Value = mat
		json, yaml = []string{"[" + strings.Join(js, ",") + "]"}, []string{strings.Join(ys, " ")}
	case 2:
		p, pj, py := point()
		res.Value = promql.Scalar(p)
		json, yaml = []string{pj}, []string{py}
	case 3:
		res.Value = promql.String{T: 1500, V: "a b"}
		json, yaml = []string{`[1.5,"a b"]`}, []string{"t: 1500 v: a b"}
	}
	return
}

func vOneOf(s string, of []string) bool {
	for _, x := range of {
		if s == x {
			return true
		}
	}
	return false
}

// In JSON a result is all its samples with their labels, times in seconds and
// values, in order, with or without colours.
func VO02_json() {
	color.NoColor = vsym.Choice("no colours", 2) == 1
	res, json, _, kept := vAnswer()
	out, err := ToPrettyFormat(res, "json", vsym.Choice("coloured", 2) == 1)
	vsym.Assert(err == nil, "formatted")
	p := &vJSON{s: vPlain(*out)}
	got := p.value()
	p.space()
	vsym.Assert(p.i == len(p.s), "one JSON value")
	var want []string
	for _, j := range json {
		want = append(want, (&vJSON{s: j}).value())
	}
	vsym.Assert(vOneOf(got, want), "the result in JSON")
	vsym.Assert(kept(), "the result is left alone")
	vsym.Reach("json")
}

// The same in YAML.
func VO02_yaml() {
	res, _, yaml, kept := vAnswer()
	out, err := ToPrettyFormat(res, "yaml", vsym.Choice("coloured", 2) == 1)
	vsym.Assert(err == nil, "formatted")
	got := strings.Join(strings.Fields(*out), " ")
	vsym.Assert(vOneOf(got, yaml), "the result in YAML: "+got)
	vsym.Assert(kept(), "the result is left alone")
	vsym.Reach("yaml")
}
