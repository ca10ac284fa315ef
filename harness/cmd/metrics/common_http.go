package metrics

import (
	"errors"
	"io"
	"net/http"
)

type vBody struct {
	r      io.Reader
	fail   error
	closed int
}

func (b *vBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail != nil {
		err = b.fail
	}
	return n, err
}
func (b *vBody) Close() error { b.closed++; return nil }

type vTransport struct {
	status int
	body   *vBody
	fail   error
	reqs   []*http.Request
}

func (t *vTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	t.reqs = append(t.reqs, r)
	if t.fail != nil {
		return nil, t.fail
	}
	return &http.Response{StatusCode: t.status, Status: "status", Body: t.body, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: -1}, nil
}

var errVHTTP = errors.New("network")
