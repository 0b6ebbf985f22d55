package webapi

import "net/http"

// VerifTransport makes all requests of this package go to t.
func VerifTransport(t http.RoundTripper) { cli = &http.Client{Transport: t} }
