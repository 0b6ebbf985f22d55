package http

import (
	"apiserver/internal/usecase/service"
	"common/verifrt"
	"common/verifrt/ginm"
	_ "common/verifrt/gobm"
	_ "common/verifrt/jsonm"
	"io"
	"strings"
)

// zzBad is a malformed request: its headers are "name: value" lines.
type zzBad struct{ method, path, query, head, body string }

func (b zzBad) send(a *zzAPI) *ginm.Writer {
	head := map[string]string{}
	for _, l := range strings.Split(b.head, "\n") {
		if k, v, ok := strings.Cut(l, ": "); ok {
			head[k] = v
		}
	}
	var body io.Reader = &service.VerifReader{Data: []byte("x"), Step: 1000}
	n := int64(1)
	if b.body == "none" {
		n = 0
	} else if b.body != "" {
		body = ginm.RawBody([]byte(b.body))
	}
	w := ginm.Do(a.h, b.method, "/v1"+b.path, b.query, head, body, n)
	verifrt.Drain()
	return w
}

// Malformed requests are refused by the API and do nothing.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c20.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:with apiserver/internal/controller/http/zz_verif_c20.go
//gosym:harness C22 quick=60s thorough=100s
func VerifC22API() {
	a := zzBig(3, 4)
	verifrt.Assert(a.put([]byte("x"), "", false, 1).Code == 201, "an object is stored")
	ok := "bucket: b\ndigest: D\nsize: 1"
	all := []zzBad{
		{"PUT", "/objects/a.txt", "", "digest: D", ""},
		{"PUT", "/objects/a.txt", "", "bucket: b", ""},
		{"PUT", "/objects/a.txt", "ss=x", ok, ""},
		{"PUT", "/objects/a.txt", "ss=300", ok, ""},
		{"PUT", "/objects/a.txt", "compress=maybe", ok, ""},
		{"PUT", "/objects/a.txt", "", ok, "none"},
		{"GET", "/objects/a.txt", "", "", ""},
		{"GET", "/objects/a.txt", "version=x", ok, ""},
		{"GET", "/objects/a.txt", "version=-1", ok, ""},
		{"GET", "/objects/a.txt", "version=4294967297", ok, ""},
		{"GET", "/objects/a.txt", "", ok + "\nrange: bytes=x-", ""},
		{"POST", "/big/a.txt", "", "digest: D\nsize: 1", ""},
		{"POST", "/big/a.txt", "", "bucket: b\nsize: 1", ""},
		{"POST", "/big/a.txt", "", "bucket: b\ndigest: D", ""},
		{"POST", "/big/a.txt", "", "bucket: b\ndigest: D\nsize: x", ""},
		{"POST", "/big/a.txt", "", "bucket: b\ndigest: D\nsize: 0", ""},
		{"POST", "/big/a.txt", "", "bucket: b\ndigest: D\nsize: -1", ""},
		{"POST", "/big/a.txt", "compress=maybe", ok, ""},
		{"PATCH", "/big/x", "", "range: bytes=0-", ""},
		{"HEAD", "/big/x", "", "", ""},
		{"GET", "/metadata/a.txt", "", "", ""},
		{"GET", "/metadata/a.txt", "version=x", ok, ""},
		{"GET", "/metadata/a.txt/versions", "page=1&page_size=1", "", ""},
		{"GET", "/metadata/a.txt/versions", "page_size=1", ok, ""},
		{"GET", "/metadata/a.txt/versions", "page=1", ok, ""},
		{"GET", "/metadata/a.txt/versions", "page=x&page_size=1", ok, ""},
		{"GET", "/metadata/a.txt/versions", "page=1&page_size=x", ok, ""},
		{"POST", "/bucket", "", "", "{"},
		{"POST", "/bucket", "", "", "none"},
		{"PUT", "/bucket/b", "", "", "{"},
		{"PUT", "/bucket/b", "", "", "none"},
	}
	n := a.w.N
	w := all[verifrt.Choice("request", len(all))].send(a)
	verifrt.Assert(w.Code == 400, "a malformed request is refused")
	verifrt.Assert(a.w.N == n && len(a.m.Vers) == 1 && len(a.m.Updates) == 0 && len(a.m.Removed) == 0, "a malformed request does nothing")
}

// An upload in parts needs to tell where a part begins.
//
//gosym:harness C22 quick=30s thorough=60s
func VerifC22Part() {
	a := zzBig(3, 4)
	r := a.start(19, "D", false)
	verifrt.Assert(r.Code == 201, "an upload is started")
	n := a.w.N
	head := []string{"", "range: x", "range: bytes=x-"}[verifrt.Choice("range", 3)]
	w := zzBad{"PATCH", strings.TrimPrefix(r.Head.Get("Location"), "/v1"), "", head, ""}.send(a)
	verifrt.Assert(w.Code == 400 && a.w.N == n, "a malformed request does nothing")
}
