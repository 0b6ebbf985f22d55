package zzverif

import (
	"common/proto/msg"
	"common/verifrt"
	"common/verifrt/ginm"
	_ "common/verifrt/jsonm"
	"encoding/json"
	"io"
)

// Malformed requests are refused by the metadata server and do nothing.
//
//gosym:with metaserver/zzverif/zz_verif_node.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_world.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_serve.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:harness C22 quick=60s thorough=100s
func VerifC22Meta() {
	ginm.Marshal = json.Marshal
	z := Serve(KV(), "m1", "0-16384")
	meta, buks := z.n.Meta, z.n.Buks
	verifrt.Assert(meta.AddMetadata("m", &msg.Metadata{Name: "m", Bucket: "b"}) == nil, "metadata is saved")
	_, err := meta.AddVersion("m", &msg.Version{Hash: "h", Size: 5, Locate: []string{"l"}})
	verifrt.Assert(err == nil, "a version is saved")
	verifrt.Assert(buks.Create(&msg.Bucket{Name: "b", VersionRemains: 7}) == nil, "a bucket is saved")
	verifrt.Advance(5e6)
	all := [][4]string{
		{"POST", "/metadata/n", "", "{"},
		{"POST", "/metadata/n", "", ""},
		{"PUT", "/metadata/m", "", "{"},
		{"PUT", "/metadata/m", "", ""},
		{"GET", "/metadata/m", "version=x", ""},
		{"GET", "/metadata/m", "with_extra=maybe", ""},
		{"GET", "/metadata/list", "", ""},
		{"GET", "/metadata/list", "page_size=x", ""},
		{"GET", "/metadata/list", "page_size=10001", ""},
		{"GET", "/metadata/list", "page_size=1&desc=maybe", ""},
		{"POST", "/metadata_version/m", "", "{"},
		{"POST", "/metadata_version/m", "", ""},
		{"PUT", "/metadata_version/m", "version=1", "{"},
		{"PUT", "/metadata_version/m", "version=1", ""},
		{"PUT", "/metadata_version/m", "", "v"},
		{"PUT", "/metadata_version/m", "version=x", "v"},
		{"GET", "/metadata_version/m", "", ""},
		{"GET", "/metadata_version/m", "version=x", ""},
		{"DELETE", "/metadata_version/m", "", ""},
		{"DELETE", "/metadata_version/m", "version=x", ""},
		{"GET", "/metadata_version/m/list", "page=1", ""},
		{"GET", "/metadata_version/m/list", "page_size=1", ""},
		{"GET", "/metadata_version/m/list", "page=x&page_size=1", ""},
		{"GET", "/metadata_version/m/list", "page=1&page_size=x", ""},
		{"PATCH", "/version/locate", "", "{"},
		{"PATCH", "/version/locate", "", ""},
		{"PATCH", "/version/locate", "", "h"},
		{"GET", "/version/list", "", ""},
		{"POST", "/bucket", "", "{"},
		{"POST", "/bucket", "", ""},
		{"POST", "/bucket", "", "b"},
		{"PUT", "/bucket/b", "", "{"},
		{"PUT", "/bucket/b", "", ""},
		{"GET", "/bucket/list", "", ""},
		{"GET", "/bucket/list", "page_size=x", ""},
		{"GET", "/bucket/list", "page_size=10001", ""},
	}
	q := all[verifrt.Choice("request", len(all))]
	var body io.Reader
	switch q[3] {
	case "{":
		body = ginm.RawBody([]byte("{"))
	case "v":
		body = ginm.JSONBody(&msg.Version{Hash: "other"})
	case "h":
		body = ginm.JSONBody(&struct {
			Hash string `json:"hash"`
		}{"h"})
	case "b":
		body = ginm.JSONBody(&msg.Bucket{VersionRemains: 3})
	}
	w := ginm.Do(z.h, q[0], q[1], q[2], nil, body, -1)
	verifrt.Drain()
	verifrt.Assert(w.Code == 400, "a malformed request is refused")
	m, err := z.Metadata("m")
	verifrt.Assert(err == nil && m.Name == "m" && m.Bucket == "b" && m.Extra.Total == 1, "metadata stays as it is")
	v, err := z.Version("m", 1)
	verifrt.Assert(err == nil && v.Hash == "h" && v.Size == 5 && len(v.Locate) == 1 && v.Locate[0] == "l", "a version stays as it is")
	b, err := z.Bucket("b")
	verifrt.Assert(err == nil && b.VersionRemains == 7, "a bucket stays as it is")
	_, err = z.Metadata("n")
	verifrt.Assert(err != nil, "nothing is added")
}
