package http

import (
	"common/verifrt"
	"common/verifrt/ginm"
	"io"
	"objectserver/internal/usecase/service"
)

// Malformed requests are refused by the object server and do nothing.
//
//gosym:with objectserver/internal/controller/http/zz_verif_c17.go
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:with objectserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with common/system/disk/zz_verif_mounts.go
//gosym:with common/system/disk/zz_verif_io.go
//gosym:harness C22 quick=60s thorough=100s
func VerifC22Store() {
	service.VerifWorld(verifrt.TempDir(), false, 5, 9)
	s := zzServe()
	verifrt.Assert(zzOK(s.put("a.0", &zzSource{b: []byte("x"), fail: -1}, 1, false)), "an object is stored")
	id := zzPost(s, "b.0", 5)
	all := [][4]string{
		{"PUT", "/objects/c.0", "compress=maybe", ""},
		{"PUT", "/objects/c.0", "", "none"},
		{"GET", "/objects/a.0", "", ""},
		{"GET", "/objects/a.0", "", "size: x"},
		{"POST", "/temp/c.0", "", ""},
		{"POST", "/temp/c.0", "", "size: x"},
		{"PATCH", "/temp/" + id, "", "none"},
		{"PATCH", "/temp/x", "", ""},
		{"PUT", "/temp/" + id, "compress=maybe", ""},
		{"PUT", "/temp/x", "", ""},
		{"GET", "/temp/" + id, "", ""},
		{"GET", "/temp/" + id, "", "size: x"},
		{"GET", "/temp/" + id, "", "size: 0"},
	}
	q := all[verifrt.Choice("request", len(all))]
	head := map[string]string{}
	if len(q[3]) > 6 {
		head["size"] = q[3][6:]
	}
	var body io.Reader = &zzSource{b: []byte("x"), fail: -1}
	n := int64(1)
	if q[3] == "none" {
		body, n = nil, 0
	}
	w := ginm.Do(s.Handler, q[0], q[1], q[2], head, body, n)
	verifrt.Drain()
	verifrt.Assert(w.Code == 400 || w.Code == 404, "a malformed request is refused")
	verifrt.Assert(s.head("c.0") == 404 && s.head("b.0") == 404, "nothing is stored")
	r := s.get("a.0", 0, 1, false)
	verifrt.Assert(r.Code == 200 && string(r.Body) == "x", "objects stay as they are")
	verifrt.Assert(zzTemp(s, "HEAD", id, "", 0).Head.Get("Size") == "0", "uploads stay as they are")
}
