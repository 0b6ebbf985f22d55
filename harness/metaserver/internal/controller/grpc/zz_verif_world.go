package grpc

import (
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/verifrt"
	"context"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"net"
	"strings"

	transport "github.com/Jille/raft-grpc-transport"
	"github.com/gin-gonic/gin/binding"
	"github.com/hashicorp/raft"
	clientv3 "go.etcd.io/etcd/client/v3"
	ggrpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
)

// zzMeta and zzBuks record the calls that reach the services.
type zzMeta struct {
	usecase.IMetadataService
	calls []string
}

func (z *zzMeta) hit(s string) { z.calls = append(z.calls, s) }
func (z *zzMeta) GetMetadata(id string, v int, _ bool) (*msg.Metadata, *msg.Version, error) {
	z.hit("GetMetadata " + id)
	return &msg.Metadata{Name: "x"}, nil, nil
}
func (z *zzMeta) GetVersion(id string, v int) (*msg.Version, error) {
	z.hit("GetVersion " + id)
	return &msg.Version{}, nil
}
func (z *zzMeta) FindByHash(h string) ([]*msg.Version, error) { z.hit("FindByHash"); return nil, nil }
func (z *zzMeta) ListVersions(id string, _, _ int) ([]*msg.Version, int, error) {
	z.hit("ListVersions " + id)
	return nil, 0, nil
}
func (z *zzMeta) AddMetadata(id string, _ *msg.Metadata) error {
	z.hit("AddMetadata " + id)
	return nil
}
func (z *zzMeta) AddVersion(id string, _ *msg.Version) (int, error) {
	z.hit("AddVersion " + id)
	return 1, nil
}
func (z *zzMeta) UpdateVersion(id string, _ int, _ *msg.Version) error {
	z.hit("UpdateVersion " + id)
	return nil
}
func (z *zzMeta) RemoveVersion(id string, _ int) error { z.hit("RemoveVersion " + id); return nil }
func (z *zzMeta) UpdateMetadata(id string, _ *msg.Metadata) error {
	z.hit("UpdateMetadata " + id)
	return nil
}
func (z *zzMeta) RemoveMetadata(id string) error { z.hit("RemoveMetadata " + id); return nil }
func (z *zzMeta) UpdateLocates(h string, _ int, _ string) error {
	z.hit("UpdateLocates " + h)
	return nil
}

type zzBuks struct {
	usecase.BucketService
	m *zzMeta
}

func (z *zzBuks) GetBytes(id string) ([]byte, error) { z.m.hit("GetBucket " + id); return nil, nil }
func (z *zzBuks) Create(b *msg.Bucket) error         { z.m.hit("CreateBucket " + b.Name); return nil }
func (z *zzBuks) Update(b *msg.Bucket) error         { z.m.hit("UpdateBucket " + b.Name); return nil }
func (z *zzBuks) Remove(id string) error             { z.m.hit("RemoveBucket " + id); return nil }

type zzHs struct{ m *zzMeta }

func (z *zzHs) AutoMigrate(*pb.LocationInfo, []string) error { z.m.hit("AutoMigrate"); return nil }
func (z *zzHs) PrepareMigrationFrom(*pb.LocationInfo, []string) error {
	z.m.hit("PrepareFrom")
	return nil
}
func (z *zzHs) PrepareMigrationTo(*pb.LocationInfo, []string) error { z.m.hit("PrepareTo"); return nil }
func (z *zzHs) ReceiveItem(*pb.MigrationItem) error                 { z.m.hit("Receive"); return nil }
func (z *zzHs) FinishReceiveItem(bool) error                        { z.m.hit("Finish"); return nil }
func (z *zzHs) GetCurrentSlots(bool) (map[string][]string, error) {
	z.m.hit("Slots")
	return nil, nil
}

// zzValid accepts every value: the requests of these harnesses are valid.
type zzValid struct{ binding.StructValidator }

func (zzValid) ValidateStruct(any) error { return nil }

//gosym:model encoding/json.MarshalIndent
func zzMarshalIndent(v any, prefix, indent string) ([]byte, error) { return []byte("{}"), nil }

// ---- the gRPC runtime, for the symbolic run only ----

var (
	zzUnary   []ggrpc.UnaryServerInterceptor
	zzStreams []ggrpc.StreamServerInterceptor
	zzDescs   map[string]*ggrpc.ServiceDesc
	zzImpls   map[string]any
)

//gosym:model google.golang.org/grpc.NewServer
func zzNewServer(opt ...ggrpc.ServerOption) *ggrpc.Server { return &ggrpc.Server{} }

//gosym:model google.golang.org/grpc.ChainUnaryInterceptor
func zzChainUnary(i ...ggrpc.UnaryServerInterceptor) ggrpc.ServerOption {
	zzUnary = append(zzUnary, i...)
	return ggrpc.EmptyServerOption{}
}

//gosym:model google.golang.org/grpc.ChainStreamInterceptor
func zzChainStream(i ...ggrpc.StreamServerInterceptor) ggrpc.ServerOption {
	zzStreams = append(zzStreams, i...)
	return ggrpc.EmptyServerOption{}
}

//gosym:model google.golang.org/grpc.MaxConcurrentStreams
func zzMaxStreams(n uint32) ggrpc.ServerOption { return ggrpc.EmptyServerOption{} }

//gosym:model (*google.golang.org/grpc.Server).RegisterService
func zzRegister(s *ggrpc.Server, sd *ggrpc.ServiceDesc, ss interface{}) {
	zzDescs[sd.ServiceName] = sd
	zzImpls[sd.ServiceName] = ss
}

//gosym:model (*github.com/Jille/raft-grpc-transport.Manager).Register
func zzManager(m *transport.Manager, s ggrpc.ServiceRegistrar) {}

func zzChain(i int, ctx context.Context, req any, info *ggrpc.UnaryServerInfo, h ggrpc.UnaryHandler) (any, error) {
	if i == len(zzUnary) {
		return h(ctx, req)
	}
	return zzUnary[i](ctx, req, info, func(ctx context.Context, req any) (any, error) { return zzChain(i+1, ctx, req, info, h) })
}

// zzCall sends a request to the server as a client would.
type zzCaller func(method string, req any, resp any) error

func zzClientOf(s *Server) zzCaller {
	if !verifrt.Symbolic() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		verifrt.Assert(err == nil, "listening succeeds")
		go s.Serve(l)
		cc, err := ggrpc.Dial(l.Addr().String(), ggrpc.WithTransportCredentials(insecure.NewCredentials()))
		verifrt.Assert(err == nil, "connecting succeeds")
		return func(method string, req any, resp any) error {
			return cc.Invoke(context.Background(), method, req, resp)
		}
	}
	return func(method string, req any, resp any) error {
		p := strings.Split(method, "/")
		sd := zzDescs[p[1]]
		if sd == nil {
			return status.Error(codes.Unimplemented, "unknown service")
		}
		for _, m := range sd.Methods {
			if m.MethodName == p[2] {
				_, err := m.Handler(zzImpls[p[1]], context.Background(), func(in any) error {
					switch in := in.(type) {
					case *pb.MetaReq:
						r := req.(*pb.MetaReq)
						in.Id, in.Hash, in.Version, in.Page, in.WithExtra = r.Id, r.Hash, r.Version, r.Page, r.WithExtra
					case *pb.Metadata:
						r := req.(*pb.Metadata)
						in.Id, in.Version, in.Msgpack = r.Id, r.Version, r.Msgpack
					}
					return nil
				}, func(ctx context.Context, req any, info *ggrpc.UnaryServerInfo, h ggrpc.UnaryHandler) (any, error) {
					return zzChain(0, ctx, req, info, h)
				})
				return err
			}
		}
		return status.Error(codes.Unimplemented, "unknown method")
	}
}

type zzWorld struct {
	call                    zzCaller
	rec                     *zzMeta
	enabled, leader, normal bool
	ownerOf                 map[string]string
	rw                      *raftimpl.RaftWrapper
}

// VerifWorld is a server in any state for the HTTP harnesses.
func VerifWorld() (meta usecase.IMetadataService, buks usecase.BucketService, calls func() []string, owns, writable func(key string) bool, keys []string) {
	w := zzState()
	return w.rec, &zzBuks{m: w.rec}, func() []string { return w.rec.calls }, w.mine, func(string) bool { return w.writable() }, zzKeys
}

func (w *zzWorld) mine(id string) bool {
	return w.ownerOf[id] == "self" || (w.enabled && w.ownerOf[id] == "boss")
}

func (w *zzWorld) writable() bool { return w.normal && (!w.enabled || w.leader) }

func zzSetup() *zzWorld {
	w := zzState()
	w.call = zzClientOf(NewRpcServer(10, w.rw, w.rec, &zzHs{w.rec}, &zzBuks{m: w.rec}))
	return w
}

// zzState is a server in any raft mode and migration state; slots are owned by it, the leader it follows, a
// foreign server or nobody.
func zzState() *zzWorld {
	if verifrt.Symbolic() {
		binding.Validator = zzValid{}
	}
	zzUnary, zzStreams = nil, nil
	zzDescs, zzImpls = map[string]*ggrpc.ServiceDesc{}, map[string]any{}
	w := &zzWorld{rec: &zzMeta{}}
	kv := &zzKV{m: map[string]string{}}
	n := newZzNode("self", kv)
	boss := "self"
	switch verifrt.Choice("raft", 3) {
	case 1:
		w.enabled, w.leader = true, true
	case 2:
		w.enabled = true
		boss = "boss"
	}
	rw := raftimpl.VerifWrapper(w.enabled, w.leader, boss)
	if !verifrt.Symbolic() && w.enabled {
		rw.Manager = transport.New(raft.ServerAddress("127.0.0.1:1"), nil)
	}
	pool.Config, pool.HashSlot, pool.RaftWrapper = n.cfg, n.slots, rw
	kv.m["g/registry/meta/other_master"] = "10.0.0.9:80"
	pool.Registry = registry.NewEtcdRegistry(&clientv3.Client{KV: kv}, &n.cfg.Registry)
	w.ownerOf = map[string]string{zzKeys[0]: "self", zzKeys[1]: boss, zzKeys[2]: "other"}
	put := func(id string, slots ...string) {
		verifrt.Assert(n.slots.Save("store-"+id, &hashslot.SlotInfo{GroupID: "store-" + id, ServerID: id, Slots: slots}) == nil, "saving slots succeeds")
	}
	if boss == "self" {
		put("self", zzRange(0, 1))
	} else {
		put("self", zzRange(0, 0))
		put("boss", zzRange(1, 1))
	}
	put("other", zzRange(2, 2))
	switch verifrt.Choice("migration", 3) {
	case 0:
		w.normal = true
	case 1:
		verifrt.Assert(n.slots.ReadyMigrateTo("x", []string{"0-1"}) == nil, "preparing succeeds")
	case 2:
		verifrt.Assert(n.slots.ReadyMigrateFrom("x", []string{"0-1"}) == nil, "preparing succeeds")
	}
	w.rw = rw
	return w
}
