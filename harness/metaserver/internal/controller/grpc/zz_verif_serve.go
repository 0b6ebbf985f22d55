package grpc

import (
	"common/cst"
	"common/proto/pb"
	"common/verifrt"
	"common/verifrt/ginm"
	"context"
	"errors"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/service"
	"net"
	"strings"

	"github.com/gin-gonic/gin/binding"
	clientv3 "go.etcd.io/etcd/client/v3"
	ggrpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// VerifNode is a metadata server that answers over gRPC.
type VerifNode struct {
	Addr  string
	Rpc   *Server
	Meta  usecase.IMetadataService
	Buks  usecase.BucketService
	Slot  *service.HashSlotService
	Calls []string // methods called
	Err   func(method string) error
}

// VerifKV is an etcd of keys and values.
func VerifKV() clientv3.KV { return &zzKV{m: map[string]string{}} }

// The process holds one metadata server.
var zzNodeHere *VerifNode

// VerifServe starts a metadata server that owns slots, with the etcd of its cluster.
func VerifServe(kv clientv3.KV, id string, slots ...string) *VerifNode {
	if verifrt.Symbolic() {
		binding.Validator = ginm.Validator{}
	}
	zzUnary, zzStreams = nil, nil
	zzDescs, zzImpls = map[string]*ggrpc.ServiceDesc{}, map[string]any{}
	z := kv.(*zzKV)
	n := newZzNode(id, z)
	n.slots = db.NewHashSlotDB(cst.EtcdPrefix.FmtHashSlot("g", ""), z)
	n.hs = service.NewHashSlotService(n.slots, n.meta, n.buks, &n.cfg.HashSlot)
	pool.Config, pool.HashSlot, pool.RaftWrapper = n.cfg, n.slots, n.rw
	n.own(slots...)
	v := &VerifNode{Addr: "10.0.1.1:80", Meta: n.meta, Buks: n.buks, Slot: n.hs}
	v.Rpc = NewRpcServer(10, n.rw, n.meta, n.hs, n.buks)
	if !verifrt.Symbolic() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		verifrt.Assert(err == nil, "listening succeeds")
		go v.Rpc.Serve(l)
		v.Addr = l.Addr().String()
	}
	zzNodeHere = v
	return v
}

// zzCopyMsg copies a message as the wire does.
func zzCopyMsg(dst, src any) {
	switch d := dst.(type) {
	case *pb.MetaReq:
		s := src.(*pb.MetaReq)
		d.Id, d.Hash, d.Version, d.WithExtra = s.Id, s.Hash, s.Version, s.WithExtra
		if s.Page != nil {
			d.Page = &pb.Pageable{Page: s.Page.Page, PageSize: s.Page.PageSize}
		}
	case *pb.Metadata:
		s := src.(*pb.Metadata)
		d.Id, d.Version, d.Msgpack = s.Id, s.Version, append([]byte(nil), s.Msgpack...)
	case *pb.Msgpack:
		s := src.(*pb.Msgpack)
		d.Data, d.Total = append([]byte(nil), s.Data...), s.Total
	case *pb.Int32:
		d.Data = src.(*pb.Int32).Data
	case *pb.Strings:
		d.Data = append([]string(nil), src.(*pb.Strings).Data...)
	case *pb.Empty:
	default:
		panic("verifrt: message " + verifrt.TypeName(dst))
	}
}

//gosym:model google.golang.org/grpc.WithInsecure
func zzInsecure() ggrpc.DialOption { return ggrpc.EmptyDialOption{} }

//gosym:model (*google.golang.org/grpc.ClientConn).Invoke
func zzInvoke(c *ggrpc.ClientConn, ctx context.Context, method string, args, reply interface{}, opts ...ggrpc.CallOption) error {
	if zzNodeHere == nil {
		return status.Error(codes.Unavailable, "connection refused")
	}
	p := strings.Split(method, "/")
	sd := zzDescs[p[1]]
	if sd == nil {
		return status.Error(codes.Unimplemented, "unknown service")
	}
	for _, m := range sd.Methods {
		if m.MethodName != p[2] {
			continue
		}
		r, err := m.Handler(zzImpls[p[1]], context.Background(), func(in any) error { zzCopyMsg(in, args); return nil },
			func(ctx context.Context, req any, info *ggrpc.UnaryServerInfo, h ggrpc.UnaryHandler) (any, error) {
				return zzChain(0, ctx, req, info, h)
			})
		if err != nil {
			var s interface{ GRPCStatus() *status.Status }
			if errors.As(err, &s) {
				return err
			}
			return status.Error(codes.Unknown, err.Error())
		}
		zzCopyMsg(reply, r)
		return nil
	}
	return status.Error(codes.Unimplemented, "unknown method")
}
