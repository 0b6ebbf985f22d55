package webapi

import "net/http"

// VerifTransport makes all requests go to rt.
func VerifTransport(rt http.RoundTripper) { httpClient.Transport = rt }
