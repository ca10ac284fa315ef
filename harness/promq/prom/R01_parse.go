package prom

import (
	"math"
	"strings"
	"time"

	"github.com/prometheus/prometheus/pkg/labels"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VR01_lines", VR01_lines)
	vsym.Register("VR01_labels", VR01_labels)
	vsym.Register("VR01_bytes", VR01_bytes)
	vsym.Register("VR01_clock", VR01_clock)
}

var vNumbers = []struct {
	text  string
	value float64
}{{"1", 1}, {"-0.5", -0.5}, {"+Inf", math.Inf(1)}, {"1e3", 1000}, {"NaN", math.NaN()}}

// Any time stamp of a sample, and lines of every kind:
// one sample per line that has one, in order, with its value, and its own time
// or that of the scrape.
func VR01_lines() {
	const sec, nano, now = 1605700000, 123999999, 1605700000123
	text := ""
	type want struct {
		name  string
		value float64
		time  int64
	}
	var wants []want
	n := vsym.Bound("lines", 3, 4)
	for i := 0; i < n; i++ {
		name := string([]byte{'m', byte('a' + i)})
		num := vNumbers[vsym.Choice("value", vsym.Bound("values", 2, len(vNumbers)))]
		switch vsym.Choice("line", 5) {
		case 0:
			text += name + " " + num.text + "\n"
			wants = append(wants, want{name, num.value, now})
		case 1:
			d := vsym.Bytes("timestamp", 1+i)
			t := int64(0)
			for _, c := range d {
				vsym.Assume(vsym.And(c >= '0', c <= '9'))
				t = 10*t + int64(c-'0')
			}
			text += name + " " + num.text + " " + string(d) + "\n"
			wants = append(wants, want{name, num.value, t})
		case 2:
			text += "# HELP " + name + " about 5 things\n"
		case 3:
			text += "# TYPE " + name + " counter\n"
		case 4:
			text += "# a comment\n\n"
		}
	}
	got, err := ParseTextData([]byte(text), time.Unix(sec, nano))
	vsym.Assert(err == nil, "parsed")
	vsym.Assert(len(got) == len(wants), "one sample for each line with one")
	for i, w := range wants {
		g := got[i]
		vsym.Assert(g.Labels.Get("__name__") == w.name && len(g.Labels) == 1, "the metric")
		vsym.Assert(g.Value == w.value || (w.value != w.value && g.Value != g.Value), "its value")
		vsym.Assert(g.Timestamp == w.time, "its time")
	}
	vsym.Reach("parsed")
}

// Labels with any value, with labels added to every sample: all there, the
// added ones winning, in order of their names.
func VR01_labels() {
	v := vsym.String("value", vsym.Choice("length", vsym.Bound("bytes of a label value", 2, 3)+1))
	for i := 0; i < len(v); i++ {
		b := v[i]
		vsym.Assume(vsym.And(b >= ' ', b < 0x7f, b != '"', b != '\\'))
	}
	own := map[string]string{"__name__": "m", "b": v, "d": "5"}
	extra := map[string]string{}
	for _, k := range []string{"a", "b", "instance"} {
		if vsym.Choice("added", 2) == 1 {
			extra[k] = "added-" + k
		}
	}
	want := map[string]string{}
	for k, x := range own {
		want[k] = x
	}
	for k, x := range extra {
		want[k] = x
	}
	if want["b"] == "" {
		delete(want, "b") // as good as absent
	}
	text := "m{b=\"" + v + "\",d=\"5\"} 1\nn 2\n"
	got, err := ParseTextDataWithAdditionalLabels([]byte(text), time.Unix(5, 0), extra)
	vsym.Assert(err == nil && len(got) == 2, "parsed")
	check := func(l labels.Labels, want map[string]string) {
		vsym.Assert(len(l) == len(want) || (len(l) == len(want)+1 && l.Get("b") == "" && l.Has("b")), "exactly the labels")
		for i, p := range l {
			vsym.Assert(p.Value == want[p.Name], "label with its value")
			vsym.Assert(i == 0 || l[i-1].Name < p.Name, "labels in order")
		}
	}
	check(got[0].Labels, want)
	want = map[string]string{"__name__": "n"}
	for k, x := range extra {
		want[k] = x
	}
	check(got[1].Labels, want)
	vsym.Reach("labelled")
}

// Text that is no metrics is an error, or else every line was understood.
func VR01_bytes() {
	b := vsym.String("bytes", vsym.Bound("arbitrary bytes", 2, 3))
	text := "ma 1\nmb" + b + "7\n"
	got, err := ParseTextData([]byte(text), time.Unix(5, 0))
	if err != nil {
		vsym.Assert(got == nil, "no data with an error")
		vsym.Reach("refused")
		return
	}
	lines := 0
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimLeft(l, " \t")
		if l != "" && l[0] != '#' {
			lines++
		}
	}
	vsym.Assert(len(got) == lines, "a sample for every line")
	vsym.Reach("accepted")
}

// Samples without a time stamp get that of the scrape, in whole milliseconds,
// rounded down.
func VR01_clock() {
	sec := []int64{0, 1, 1605700000, 1 << 33}[vsym.Choice("seconds", 4)]
	nano := vsym.Int64Range("nanoseconds", 0, 999999999)
	got, err := ParseTextData([]byte("m 1\n"), time.Unix(sec, nano))
	vsym.Assert(err == nil && len(got) == 1, "parsed")
	rest := nano - (got[0].Timestamp-sec*1000)*1000000
	vsym.Assert(vsym.And(rest >= 0, rest < 1000000), "the time of the scrape")
	vsym.Reach("timed")
}
