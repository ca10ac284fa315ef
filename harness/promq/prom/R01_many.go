package prom

import (
	"strconv"
	"time"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VR01_many", VR01_many)
}

// Long text: many lines of all kinds, one of them with any digits.
func VR01_many() {
	const now = 1605700000123
	n := vsym.Bound("many lines", 300, 1500)
	text := ""
	at := vsym.Choice("where", 4) * (n - 1) / 3
	d := vsym.Bytes("digits", 2)
	for _, c := range d {
		vsym.Assume(vsym.And(c >= '0', c <= '9'))
	}
	long := ""
	for i := 0; i < 3000; i++ {
		long += "x"
	}
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		switch {
		case i == at:
			text += "m{a=\"" + s + "\",b=\"" + long + "\",c=\"" + string(d) + "\"} 5 " + string(d) + "\n"
		case i%10 == 3:
			text += "# HELP m" + s + " of " + s + "\n# TYPE m" + s + " gauge\n\nm" + s + " " + s + "\n"
		default:
			text += "m{a=\"" + s + "\",b=\"y\"} " + s + " " + s + "\n"
		}
	}
	got, err := ParseTextDataWithAdditionalLabels([]byte(text), time.Unix(1605700000, 123999999), map[string]string{"instance": "h"})
	vsym.Assert(err == nil, "parsed")
	vsym.Assert(len(got) == n, "one sample for each line with one")
	for i, g := range got {
		s := strconv.Itoa(i)
		vsym.Assert(g.Labels.Get("instance") == "h", "the added label")
		switch {
		case i == at:
			vsym.Assert(g.Labels.Get("a") == s && len(g.Labels.Get("b")) == len(long) && len(g.Labels) == 5, "its labels")
			vsym.Assert(vsym.And(g.Labels.Get("c") == string(d), g.Value == 5), "its label and value")
			vsym.Assert(g.Timestamp == 10*int64(d[0]-'0')+int64(d[1]-'0'), "its time")
		case i%10 == 3:
			vsym.Assert(g.Labels.Get("__name__") == "m"+s && len(g.Labels) == 2 && g.Value == float64(i), "the metric and its value")
			vsym.Assert(g.Timestamp == now, "the time of the scrape")
		default:
			vsym.Assert(g.Labels.Get("a") == s && g.Labels.Get("b") == "y" && len(g.Labels) == 4 && g.Value == float64(i), "its labels and value")
			vsym.Assert(g.Timestamp == int64(i), "its time")
		}
	}
	vsym.Reach("parsed")
}
