package metrics

import (
	"bytes"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/fatih/color"
	"k8s.io/client-go/rest"

	"sigs.k8s.io/instrumentation-tools/cmd/cli"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC03_query", VC03_query)
	vsym.Register("VC03_list", VC03_list)
}

// vHosts answers for several endpoints; the request of the given number fails.
type vHosts struct {
	bodies map[string]string
	failAt int
	status int
	cut    bool
	n      int
	asked  []string
}

func (h *vHosts) RoundTrip(r *http.Request) (*http.Response, error) {
	h.n++
	h.asked = append(h.asked, r.URL.String())
	b := &vBody{r: strings.NewReader(h.bodies[r.URL.String()])}
	t := &vTransport{status: 200, body: b}
	if h.n == h.failAt {
		switch {
		case h.status == 0:
			t.fail = errVHTTP
		case h.cut:
			b.fail = errVHTTP
		default:
			t.status = h.status
		}
	}
	return t.RoundTrip(r)
}

var vTexts = []struct {
	text  string
	lines []string // of name, labels, value; H is the endpoint
}{
	{"m{a=\"x\"} 5\nm{a=\"y\"} 7\nn 6\n", []string{`m{a="x", instance="H"} => 5`, `m{a="y", instance="H"} => 7`, `n{instance="H"} => 6`}},
	{"# TYPE m counter\nm{a=\"x\"} 0.5\nn{c=\"50%d\"} 1\n", []string{`m{a="x", instance="H"} => 0.5`, `n{c="50%d", instance="H"} => 1`}},
	{"", nil},
}

var vQueries = []struct {
	q    string
	want func(line string) bool
	bad  bool
}{
	{"", func(l string) bool { return true }, false},
	{"m", func(l string) bool { return strings.HasPrefix(l, "m{") }, false},
	{`{a="x"}`, func(l string) bool { return strings.Contains(l, `a="x"`) }, false},
	{`n{instance!=""}`, func(l string) bool { return strings.HasPrefix(l, "n{") }, false},
	{"nope", func(l string) bool { return false }, false},
	{"m{", nil, true},
	{"sum(", nil, true},
}

func vRun(flags cli.PromQFlags) (h *vHosts, want []string, out string, err error) {
	hosts := []string{"http://a/metrics", "http://b:8080/metrics"}
	h = &vHosts{bodies: map[string]string{}}
	use := hosts[:vsym.Choice("targets", 3)]
	flags.HostNames = append(flags.HostNames, use...)
	if len(use) == 0 {
		use = []string{"http://kube/metrics"}
	}
	for _, u := range use {
		t := vTexts[vsym.Choice("text", len(vTexts))]
		h.bodies[u] = t.text
		for _, l := range t.lines {
			want = append(want, strings.Replace(l, "H", u, 1))
		}
	}
	if vsym.Choice("failure", 2) == 1 {
		h.failAt = 1 + vsym.Choice("request", 4)
		switch vsym.Choice("how", 3) {
		case 1:
			h.status = vsym.IntRange("status", 400, 599)
		case 2:
			h.status, h.cut = 200, true
		}
	}
	var b bytes.Buffer
	c := &MetricsCommand{Period: time.Minute, Window: time.Minute}
	c.RestConfig = &rest.Config{Host: "http://kube", Transport: h}
	c.Streams.Out = &b
	color.NoColor = true
	err = c.Run(flags)
	for i, u := range h.asked {
		vsym.Assert(u == use[i%len(use)], "the targets are asked in order")
	}
	return h, want, b.String(), err
}

// A query by command: the answer on what the targets give, or an error and no
// output.
func VC03_query() {
	q := vQueries[vsym.Choice("query", len(vQueries))]
	format := []string{"prometheus", "nonsense", "json", "yaml"}[vsym.Choice("format", 4)]
	h, all, out, err := vRun(cli.PromQFlags{PromQuery: q.q, Output: format})
	if q.bad || format == "nonsense" || h.failAt > 0 && h.n >= h.failAt {
		vsym.Assert(err != nil, "failures are reported")
		vsym.Assert(out == "", "failures print nothing")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil, "answered")
	var want, got []string
	for _, l := range all {
		if q.want(l) {
			want = append(want, l)
		}
	}
	vsym.Assert(strings.HasSuffix(out, "\n"), "ends its last line")
	if format == "json" || format == "yaml" {
		// each sample has a target; json is all one value
		vsym.Assert(strings.Count(out, "instance") == len(want), "exactly the selected samples")
		if len(want) > 0 {
			vsym.Assert((format == "json") == (strings.Count(out, `"value"`) == len(want)), "in the format that was asked for")
			vsym.Assert((format == "yaml") == (strings.Count(out, "- point:") == len(want)), "in the format that was asked for")
		}
		vsym.Reach("encoded")
		return
	}
	for _, l := range strings.Split(strings.TrimSuffix(out, "\n"), "\n") {
		if i := strings.Index(l, " @["); i >= 0 {
			l = l[:i]
		}
		if l != "" {
			got = append(got, l)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	vsym.Assert(strings.Join(got, "\n") == strings.Join(want, "\n"), "exactly the selected samples")
	vsym.Reach("answered")
}

// The list of metrics by command.
func VC03_list() {
	h, all, out, err := vRun(cli.PromQFlags{List: true, PromQuery: "m{", Output: "nonsense"})
	if h.failAt > 0 && h.n >= h.failAt {
		vsym.Assert(err != nil, "failures are reported")
		vsym.Assert(out == "", "failures print nothing")
		vsym.Reach("failed")
		return
	}
	vsym.Assert(err == nil, "listed")
	var m, n, nc bool
	for _, l := range all {
		m = m || strings.HasPrefix(l, "m{")
		n = n || strings.HasPrefix(l, "n{i")
		nc = nc || strings.HasPrefix(l, "n{c")
	}
	want := ""
	if m {
		want += "--m { a }\n"
	}
	if n {
		want += "--n {  }\n"
	}
	if nc {
		want += "--n { c }\n"
	}
	vsym.Assert(out == want, "the metrics of all targets")
	vsym.Assert(h.n == len(h.bodies), "each target is asked once")
	vsym.Reach("listed")
}
