package controller

import (
	"common/verifrt"
	"common/verifrt/ginm"
	"encoding/json"
	"io"
	"net/http"
)

// Malformed requests are refused by the console and reach no server.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:harness C22 quick=60s thorough=100s
func VerifC22Console() {
	z := zzNew(map[string]map[string]string{"api": {"a1": "10.0.0.1:80"}, "meta": {"m1_master": "10.0.0.2:80"}})
	ginm.Marshal = json.Marshal
	n := 0
	z.serve = func(r *http.Request) *http.Response {
		if r.URL.Path == "/v1/security/check" || r.URL.Path == "/v1/check" {
			return z.answer(200, nil, nil, false)
		}
		n++
		return z.answer(200, nil, nil, false)
	}
	all := [][4]string{
		{"GET", "/metadata/page", "page=x", ""},
		{"GET", "/metadata/page", "page_size=x", ""},
		{"GET", "/metadata/versions", "page=x", ""},
		{"POST", "/metadata/migration", "", "{"},
		{"POST", "/metadata/migration", "", ""},
		{"POST", "/metadata/migration", "", "v"},
		{"GET", "/metadata/peers", "", ""},
		{"GET", "/metadata/buckets", "page=x", ""},
		{"POST", "/metadata/create_bucket", "", "{"},
		{"POST", "/metadata/create_bucket", "", ""},
		{"PUT", "/metadata/update_bucket", "", "{"},
		{"PUT", "/metadata/update_bucket", "", ""},
		{"POST", "/metadata/leave_cluster", "", "{"},
		{"POST", "/metadata/leave_cluster", "", "v"},
		{"POST", "/metadata/join_leader", "", "{"},
		{"POST", "/metadata/join_leader", "", "v"},
		{"GET", "/metadata/config/m2", "", ""},
	}
	q := all[verifrt.Choice("request", len(all))]
	var body io.Reader
	switch q[3] {
	case "{":
		body = ginm.RawBody([]byte("{"))
	case "v":
		body = ginm.JSONBody(&struct {
			Other string `json:"other"`
		}{"x"})
	}
	w := z.do(q[0], q[1], q[2], body)
	verifrt.Drain()
	verifrt.Assert(w.Code == 400, "a malformed request is refused")
	verifrt.Assert(n == 0, "a malformed request reaches no server")
}
