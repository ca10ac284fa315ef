package metrics

import (
	"bytes"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/fatih/color"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC03_many", VC03_many)
}

// Many targets with many metrics.
func VC03_many() {
	n, each := vsym.Bound("many targets", 12, 30), vsym.Bound("many samples", 25, 60)
	h := &vHosts{bodies: map[string]string{}}
	var flags cli.PromQFlags
	var m, all, list []string
	for i := 0; i < n; i++ {
		u := "http://host" + strconv.Itoa(i) + "/metrics"
		flags.HostNames = append(flags.HostNames, u)
		for j := 0; j < each; j++ {
			s := strconv.Itoa(j)
			h.bodies[u] += "m" + s + "{a=\"" + strconv.Itoa(i) + "\"} " + s + "\n"
			l := "m" + s + "{a=\"" + strconv.Itoa(i) + "\", instance=\"" + u + "\"} => " + s
			all = append(all, l)
			if j == 7 {
				m = append(m, l)
			}
			if i == 0 {
				list = append(list, "--m"+s+" { a }")
			}
		}
	}
	if vsym.Choice("failure", 2) == 1 {
		h.failAt, h.status = 1+vsym.Choice("request", 3)*(n-1)/2, vsym.IntRange("status", 400, 599)
	}
	want := [][]string{all, m, list}[vsym.Choice("what", 3)]
	switch len(want) {
	case len(m):
		flags.PromQuery = "m7"
	case len(list):
		flags.List = true
	}
	flags.Output = "prometheus"
	var b bytes.Buffer
	c := &MetricsCommand{Period: time.Minute, Window: time.Minute}
	c.RestConfig = &rest.Config{Host: "http://kube", Transport: h}
	c.Streams.Out = &b
	color.NoColor = true
	err := c.Run(flags)
	if h.failAt > 0 {
		vsym.Assert(err != nil && b.String() == "", "failures are reported and print nothing")
		return
	}
	vsym.Assert(err == nil, "answered")
	var got []string
	for _, l := range strings.Split(strings.TrimSuffix(b.String(), "\n"), "\n") {
		if i := strings.Index(l, " @["); i >= 0 {
			l = l[:i]
		}
		got = append(got, l)
	}
	sort.Strings(got)
	sort.Strings(want)
	vsym.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "exactly what was asked for")
	vsym.Reach("answered")
}
