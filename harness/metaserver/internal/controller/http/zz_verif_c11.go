package http

import (
	"bytes"
	"common/proto/msg"
	"common/verifrt"
	"encoding/json"
	"io"
	zgrpc "metaserver/internal/controller/grpc"
	"net/http"
	"net/url"
	"strings"

	"github.com/gin-gonic/gin"
	"github.com/gin-gonic/gin/binding"
)

// zzBody is the body of the request under way.
var zzBody any

//gosym:model (*github.com/gin-gonic/gin.Context).ShouldBindJSON
func zzShouldBindJSON(c *gin.Context, v any) error {
	switch v := v.(type) {
	case *msg.Metadata:
		*v = *zzBody.(*msg.Metadata)
	case *msg.Version:
		*v = *zzBody.(*msg.Version)
	case *msg.Bucket:
		*v = *zzBody.(*msg.Bucket)
	}
	return nil
}

//gosym:model (*github.com/gin-gonic/gin.Context).JSON
func zzJSON(c *gin.Context, code int, v any) { c.Status(code) }

//gosym:model common/util.H2CHandler
func zzH2C(h http.Handler, g http.Handler) http.Handler { return h }

//gosym:model github.com/gin-gonic/gin.LoggerWithWriter
func zzLogger(w io.Writer, _ ...string) gin.HandlerFunc { return func(c *gin.Context) {} }

//gosym:model github.com/gin-gonic/gin.debugPrint
func zzDebugPrint(format string, values ...any) {}

//gosym:model github.com/gin-gonic/gin.debugPrintRoute
func zzDebugRoute(m, p string, h gin.HandlersChain) {}

type zzLocate struct {
	Locate      string `json:"locate"`
	Hash        string `json:"hash"`
	LocateIndex int    `json:"locateIndex"`
}

//gosym:model metaserver/internal/entity.BindAll
func zzBindAll(c *gin.Context, v any, b ...binding.Binding) error { return nil }

// zzWriter records a response.
type zzWriter struct {
	head http.Header
	code int
	body []byte
}

func (w *zzWriter) Header() http.Header { return w.head }
func (w *zzWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	w.body = append(w.body, b...)
	return len(b), nil
}
func (w *zzWriter) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}

func zzDo(s *Server, method, path, query string, body any) *zzWriter {
	w := &zzWriter{head: http.Header{}}
	zzBody = body
	var rd io.Reader
	if body != nil && !verifrt.Symbolic() {
		b, err := json.Marshal(body)
		verifrt.Assert(err == nil, "the body is valid")
		rd = bytes.NewReader(b)
	}
	var r *http.Request
	if verifrt.Symbolic() {
		p, _ := url.PathUnescape(path)
		r = &http.Request{Method: method, URL: &url.URL{Path: p, RawQuery: query}, Header: http.Header{}, ProtoMajor: 1}
		if p != path {
			r.URL.RawPath = path
		}
	} else {
		u := path
		if query != "" {
			u += "?" + query
		}
		r, _ = http.NewRequest(method, u, rd)
	}
	s.Handler.ServeHTTP(w, r)
	return w
}

// Every writing request over HTTP reaches the services only on a server that may write and owns the key; a request
// for a foreign key is referred to the same place at the owner, and nothing is changed.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_world.go
//gosym:harness C11 quick=60s thorough=300s
func VerifC11Http() {
	gin.SetMode(gin.ReleaseMode)
	meta, buks, calls, owns, writable, keys := zgrpc.VerifWorld()
	s := NewHttpServer("0", nil, meta, buks)
	id := append([]string{"free"}, keys...)[verifrt.Choice("id", 4)]
	name := strings.ReplaceAll(id, "/", "%2F")
	ver := &msg.Version{StoreStrategy: 1, Hash: "h", Size: 1, Locate: []string{"l"}, DataShards: 1, ParityShards: 1, ShardSize: 1}
	var w *zzWriter
	var want, path, query string
	switch verifrt.Choice("request", 10) {
	case 0:
		want, path = "UpdateMetadata ", "/metadata/"+name
		w = zzDo(s, "PUT", path, query, &msg.Metadata{Name: "x", Bucket: "b"})
	case 1:
		want, path = "AddMetadata ", "/metadata/"+name
		w = zzDo(s, "POST", path, query, &msg.Metadata{Name: "x", Bucket: "b"})
	case 2:
		want, path = "RemoveMetadata ", "/metadata/"+name
		w = zzDo(s, "DELETE", path, query, nil)
	case 3:
		want, path, query = "UpdateVersion ", "/metadata_version/"+name, "version=2"
		w = zzDo(s, "PUT", path, query, ver)
	case 4:
		want, path = "AddVersion ", "/metadata_version/"+name
		w = zzDo(s, "POST", path, query, ver)
	case 5:
		want, path, query = "RemoveVersion ", "/metadata_version/"+name, "version=2"
		w = zzDo(s, "DELETE", path, query, nil)
	case 6:
		want, path = "CreateBucket ", "/bucket"
		w = zzDo(s, "POST", path, query, &msg.Bucket{Name: id})
	case 7:
		want, path = "UpdateBucket ", "/bucket/"+name
		w = zzDo(s, "PUT", path, query, &msg.Bucket{Name: "other"})
	case 8:
		want, path = "RemoveBucket ", "/bucket/"+name
		w = zzDo(s, "DELETE", path, query, nil)
	case 9: // versions are found by their hash on any server that may write
		id = "h"
		w = zzDo(s, "PATCH", "/version/locate", "", &zzLocate{Locate: "l", Hash: "h", LocateIndex: 1})
		mayWrite := writable(id)
		verifrt.Assert((w.code < 300 && len(calls()) == 1) == mayWrite && (w.code >= 400 && len(calls()) == 0) == !mayWrite, "locates are changed exactly on a server that may write")
		verifrt.Reach("locates")
		return
	}
	got := calls()
	if !owns(id) || !writable(id) {
		verifrt.Assert(w.code >= 400 && len(got) == 0, "a request this server may not serve is refused")
		if writable(id) && id == keys[2] {
			if query != "" {
				path += "?" + query
			}
			verifrt.Assert(w.head.Get("Location") == "http://10.0.0.9:80"+path, "a request for a foreign key is referred to its owner")
			verifrt.Reach("referred")
		}
		return
	}
	verifrt.Assert(w.code < 300 && len(got) == 1 && got[0] == want+id, "a request for a key of this server is served")
	verifrt.Reach("served")
}
