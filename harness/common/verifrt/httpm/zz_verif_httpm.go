// Package httpm hands requests of HTTP clients straight to their transport in the symbolic run.
// Harnesses install transports of their own in both runs.
package httpm

import (
	"bytes"
	"io"
	"net/http"
	"strconv"
)

// Transport answers requests with a function.
type Transport func(*http.Request) (*http.Response, error)

func (t Transport) RoundTrip(r *http.Request) (*http.Response, error) { return t(r) }

// Response makes a response.
func Response(code int, head map[string]string, body []byte) *http.Response {
	h := http.Header{}
	for k, v := range head {
		h.Set(k, v)
	}
	return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Header: h, ProtoMajor: 1, ProtoMinor: 1,
		Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
}

//gosym:model (*net/http.Client).do
func zzDo(c *http.Client, req *http.Request) (*http.Response, error) {
	t := c.Transport
	if t == nil {
		t = http.DefaultTransport
	}
	if req.Header == nil {
		req.Header = http.Header{}
	}
	r, err := t.RoundTrip(req)
	if err != nil {
		return nil, err
	}
	if r.Body == nil {
		r.Body = http.NoBody
	}
	return r, nil
}
