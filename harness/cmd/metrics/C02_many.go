package metrics

import (
	"context"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"
	"time"

	vsym "sigs.k8s.io/instrumentation-tools/zzvsym"
)

func init() {
	vsym.Register("VC02_many", VC02_many)
}

// vPieces gives a text in pieces, the last of them with or before the end.
type vPieces struct {
	text string
	n    int
	end  bool
}

func (r *vPieces) Read(p []byte) (int, error) {
	n := len(p)
	if n > r.n {
		n = r.n
	}
	n = copy(p[:n], r.text)
	r.text = r.text[n:]
	if r.text == "" && (r.end || n == 0) {
		return n, io.EOF
	}
	return n, nil
}

// A long reply, in pieces of any size: all its samples, or an error if it is
// cut off.
func VC02_many() {
	n := vsym.Bound("many samples", 700, 3000)
	var b strings.Builder
	for i := 0; i < n; i++ {
		s := strconv.Itoa(i)
		if i%50 == 0 {
			b.WriteString("# HELP m" + s + " about " + s + "\n# TYPE m" + s + " gauge\n")
		}
		b.WriteString("m" + s + "{verb=\"GET\",resource=\"some resource " + s + "\",group=\"\",subresource=\"status\",client=\"kube-controller-manager\"} " + s + "\n")
	}
	url := "http://host:1/metrics"
	body := &vBody{r: &vPieces{b.String(), []int{512, 4096, 1 << 20, 1000}[vsym.Choice("pieces", 4)], vsym.Choice("end", 2) == 1}}
	cut := vsym.Choice("cut off", 2) == 1
	if cut {
		body.fail = errVHTTP
	}
	s := &httpSource{url: url, client: &http.Client{Transport: &vTransport{status: vsym.IntRange("status", 200, 299), body: body}}}
	got, err := s.ScrapePrometheusEndpoint(context.Background(), time.Unix(1000, 0))
	if cut {
		vsym.Assert(errors.Is(err, errVHTTP) && len(got) == 0, "half a reply is an error")
		return
	}
	vsym.Assert(err == nil && len(got) == n, "every sample")
	for i, g := range got {
		vsym.Assert(g.Labels.Get("__name__") == "m"+strconv.Itoa(i) && g.Labels.Get("resource") == "some resource "+strconv.Itoa(i) && g.Value == float64(i), "the sample")
		vsym.Assert(g.Labels.Get("instance") == url && g.Timestamp == 1000000, "the endpoint it comes from, and the time")
	}
	vsym.Reach("scraped")
}
