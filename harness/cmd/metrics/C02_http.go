package metrics

import (
	"context"
	"errors"
	"net/http"
	"strings"
	"time"

	"k8s.io/client-go/rest"
	"sigs.k8s.io/instrumentation-tools/cmd/cli"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC02_http", VC02_http)
	vsym.Register("VC02_targets", VC02_targets)
}

var vBodies = []struct {
	text  string
	names []string
	bad   bool
}{
	{"", nil, false},
	{"m{a=\"x\"} 5\nn 6\n", []string{"m", "n"}, false},
	{"# HELP m help\n# TYPE m counter\nm 7\n", []string{"m"}, false},
	{"404 page not found\n", nil, true},
	{"m{a=\"x\" 5\n", nil, true},
}

// Any reply, or none: the samples of a successful one, marked with the
// endpoint they come from, or else an error.
func VC02_http() {
	urls := []string{"http://host:1/metrics", "https://other/metrics?x=y"}
	url := urls[vsym.Choice("url", len(urls))]
	b := vBodies[vsym.Choice("body", len(vBodies))]
	tr := &vTransport{status: vsym.IntRange("status", 200, 599), body: &vBody{r: strings.NewReader(b.text)}}
	// the client follows redirects by itself
	vsym.Assume(tr.status < 300 || tr.status > 399)
	switch vsym.Choice("failure", 3) {
	case 1:
		tr.fail = errVHTTP
	case 2:
		tr.body.fail = errVHTTP
	}
	s := &httpSource{url: url, client: &http.Client{Transport: tr}}
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, "here")
	got, err := s.ScrapePrometheusEndpoint(ctx, time.Unix(1000, 0))
	vsym.Assert(len(tr.reqs) == 1, "one request")
	r := tr.reqs[0]
	vsym.Assert(r.Method == "GET" && r.URL.String() == url, "the endpoint is asked for its metrics")
	vsym.Assert(r.Context().Value(key{}) == "here", "with the context of the scrape")
	if tr.fail == nil {
		vsym.Assert(tr.body.closed > 0, "the reply is closed")
	}
	switch {
	case tr.fail != nil:
		vsym.Assert(errors.Is(err, errVHTTP), "no reply is an error")
	case tr.status > 299:
		vsym.Assert(err != nil, "a reply that reports a failure is an error")
	case tr.body.fail != nil:
		vsym.Assert(errors.Is(err, errVHTTP), "half a reply is an error")
	case b.bad:
		vsym.Assert(err != nil, "nonsense is an error")
	default:
		vsym.Assert(err == nil, "scraped")
		vsym.Assert(len(got) == len(b.names), "every sample")
		for i, g := range got {
			vsym.Assert(g.Labels.Get("__name__") == b.names[i], "the metric")
			vsym.Assert(g.Labels.Get("instance") == url, "the endpoint it comes from")
			vsym.Assert(g.Timestamp == 1000000, "the time of the scrape")
		}
		vsym.Reach("scraped")
	}
	if err != nil {
		vsym.Assert(len(got) == 0, "an error comes without data")
		vsym.Reach("failed")
	}
}

// Without targets the server of the configuration is scraped, otherwise each
// target, and only those, in order.
func VC02_targets() {
	n := vsym.Choice("targets", vsym.Bound("targets", 2, 3)+1)
	c := &MetricsCommand{}
	c.RestConfig = &rest.Config{Host: "http://kube"}
	var want []string
	var flags cli.PromQFlags
	for i := 0; i < n; i++ {
		want = append(want, []string{"http://a/metrics", "http://b", "https://c:1/x"}[vsym.Choice("target", 3)])
	}
	flags.HostNames = append(flags.HostNames, want...)
	if n == 0 {
		want = []string{"http://kube/metrics"}
	}
	vsym.Assert(c.setupSources(flags) == nil, "set up")
	vsym.Assert(len(c.sources.sources) == len(want), "as many sources as targets")
	for i, s := range c.sources.sources {
		h, ok := s.(*httpSource)
		vsym.Assert(ok && h.url == want[i] && h.client != nil, "the target")
	}
	vsym.Reach("set up")
}
