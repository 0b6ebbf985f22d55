// Package zzverif lets harnesses of other servers run a metadata server.
package zzverif

import (
	"common/proto/msg"
	"common/verifrt/ginm"
	"common/verifrt/httpm"
	"io"
	zgrpc "metaserver/internal/controller/grpc"
	zhttp "metaserver/internal/controller/http"
	"net/http"

	"github.com/gin-gonic/gin"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// Node is a metadata server: one for the process.
type Node struct {
	n *zgrpc.VerifNode
	h http.Handler
}

func KV() clientv3.KV { return zgrpc.VerifKV() }

// Serve starts a metadata server which owns slots.
func Serve(kv clientv3.KV, id string, slots ...string) *Node {
	gin.SetMode(gin.ReleaseMode)
	n := zgrpc.VerifServe(kv, id, slots...)
	return &Node{n, zhttp.NewHttpServer("0", n.Rpc, n.Meta, n.Buks).Handler}
}

// Addr is where the server is.
func (z *Node) Addr() string { return z.n.Addr }

// RoundTrip answers requests over HTTP.
func (z *Node) RoundTrip(r *http.Request) (*http.Response, error) {
	var body io.Reader
	if r.Body != nil {
		b, err := io.ReadAll(r.Body)
		r.Body.Close()
		if err != nil {
			return nil, err
		}
		if len(b) > 0 {
			body = ginm.RawBody(b)
		}
	}
	head := map[string]string{}
	for k := range r.Header {
		head[k] = r.Header.Get(k)
	}
	w := ginm.Do(z.h, r.Method, r.URL.EscapedPath(), r.URL.RawQuery, head, body, r.ContentLength)
	res := httpm.Response(w.Code, nil, w.Body)
	for k := range w.Head {
		res.Header.Set(k, w.Head.Get(k))
	}
	res.Request = r
	return res, nil
}

// Version reads a version from the server itself.
func (z *Node) Version(id string, n int) (*msg.Version, error) { return z.n.Meta.GetVersion(id, n) }

// Metadata reads metadata from the server itself.
func (z *Node) Metadata(id string) (*msg.Metadata, error) {
	m, _, err := z.n.Meta.GetMetadata(id, -1, true)
	return m, err
}

// Bucket reads a bucket from the server itself.
func (z *Node) Bucket(name string) (*msg.Bucket, error) { return z.n.Buks.Get(name) }
