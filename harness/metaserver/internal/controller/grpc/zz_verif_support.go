package grpc

import (
	"common/cache"
	"common/hashslot"
	"common/proto/pb"
	"common/util"
	"common/verifrt"
	_ "common/verifrt/boltm"
	"context"
	"errors"
	"fmt"
	"io"
	"metaserver/config"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"metaserver/internal/usecase/service"
	"net"
	"sort"
	"strconv"
	"time"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	ggrpc "google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

// zzKeys are objects and buckets by ascending slot.
var zzKeys = func() []string {
	k := []string{"b/a", "b/c", "b/d"}
	sort.Slice(k, func(i, j int) bool {
		return hashslot.CalcBytesSlot([]byte(k[i])) < hashslot.CalcBytesSlot([]byte(k[j]))
	})
	return k
}()

func zzSlotOf(k string) int { return hashslot.CalcBytesSlot([]byte(k)) }

func zzRange(i, j int) string {
	return fmt.Sprintf("%d-%d", zzSlotOf(zzKeys[i]), zzSlotOf(zzKeys[j])+1)
}

// zzCache is a cache that keeps nothing.
type zzCache struct{}

func (c *zzCache) NotifyEvicted() <-chan cache.Entry   { return nil }
func (c *zzCache) Get(k string) []byte                 { return nil }
func (c *zzCache) HasGet(k string) ([]byte, bool)      { return nil, false }
func (c *zzCache) Has(k string) bool                   { return false }
func (c *zzCache) Set(k string, v []byte) bool         { return true }
func (c *zzCache) SetGob(k string, v interface{}) bool { return false }
func (c *zzCache) Refresh(k string)                    {}
func (c *zzCache) Delete(k string)                     {}
func (c *zzCache) Close() error                        { return nil }

// zzKV is etcd: a map from keys to values whose next call can fail.
type zzKV struct {
	clientv3.KV
	m       map[string]string
	failPut int // the put that fails, counted from 1
	failGet int
}

func (z *zzKV) Get(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if z.failGet--; z.failGet == 0 {
		return nil, errors.New("etcd is away")
	}
	end := string(clientv3.OpGet(key, opts...).RangeBytes())
	var ks []string
	for k := range z.m {
		if k == key || (end != "" && k >= key && k < end) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	res := &clientv3.GetResponse{}
	for _, k := range ks {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(z.m[k])})
	}
	return res, nil
}

func (z *zzKV) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	if z.failPut--; z.failPut == 0 {
		return nil, errors.New("etcd is away")
	}
	z.m[key] = val
	return &clientv3.PutResponse{}, nil
}

func (z *zzKV) Delete(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	delete(z.m, key)
	return &clientv3.DeleteResponse{}, nil
}

// zzNode is a metadata server.
type zzNode struct {
	usecase.IHashSlotService
	id       string
	cfg      *config.Config
	slots    *db.HashSlotDB
	rw       *raftimpl.RaftWrapper
	meta     *service.MetadataService
	buks     *service.BucketService
	hs       *service.HashSlotService
	failItem int // the received item that is refused, counted from 1
	received int
}

func newZzNode(id string, kv *zzKV) *zzNode {
	n := &zzNode{id: id, rw: raftimpl.NewDisabledRaft()}
	dir := verifrt.TempDir()
	n.cfg = config.VerifConfig(dir + "/" + id + ".yaml")
	n.cfg.Port, n.cfg.Registry.Name, n.cfg.Registry.Group, n.cfg.Registry.ServerID, n.cfg.Registry.ServerPort = "1", "meta", "g", id, "1"
	n.cfg.HashSlot.StoreID, n.cfg.HashSlot.PrepareTimeout = id, time.Minute
	n.slots = db.NewHashSlotDB("slots/", kv)
	st := db.NewStorage()
	verifrt.Assert(st.Open(dir+"/"+id+".db") == nil, "storage opens")
	mc, bc := repo.NewMetadataCacheRepo(&zzCache{}), repo.NewBucketCacheRepo(&zzCache{})
	n.meta = service.NewMetadataService(repo.NewMetadataRepo(st, mc), repo.NewBatchRepo(st, mc), repo.NewHashIndexRepo(st), n.rw)
	n.buks = service.NewBucketService(repo.NewBucketRepo(st, bc), n.rw)
	n.hs = service.NewHashSlotService(n.slots, n.meta, n.buks, &n.cfg.HashSlot)
	n.IHashSlotService = n.hs
	return n
}

// as makes this process the node while fn runs: a node's own process holds its globals.
func (n *zzNode) as(fn func() error) error {
	c, s, r := pool.Config, pool.HashSlot, pool.RaftWrapper
	pool.Config, pool.HashSlot, pool.RaftWrapper = n.cfg, n.slots, n.rw
	defer func() { pool.Config, pool.HashSlot, pool.RaftWrapper = c, s, r }()
	err := fn()
	verifrt.Drain()
	return err
}

func (n *zzNode) own(slots ...string) {
	verifrt.Assert(n.slots.Save(n.id, &hashslot.SlotInfo{GroupID: n.id, ServerID: n.id, Slots: slots}) == nil, "saving slots succeeds")
}

func (n *zzNode) PrepareMigrationFrom(loc *pb.LocationInfo, slots []string) error {
	return n.as(func() error { return n.hs.PrepareMigrationFrom(loc, slots) })
}
func (n *zzNode) ReceiveItem(i *pb.MigrationItem) error {
	if n.received++; n.received == n.failItem {
		return errors.New("disk full")
	}
	return n.hs.ReceiveItem(i)
}
func (n *zzNode) FinishReceiveItem(ok bool) error {
	return n.as(func() error { return n.hs.FinishReceiveItem(ok) })
}

// zzServe makes the node reachable and returns where.
func zzServe(n *zzNode) *pb.LocationInfo {
	if verifrt.Symbolic() {
		zzPeer = NewHashSlotServer(n)
		return &pb.LocationInfo{Host: "h", Port: "1"}
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	verifrt.Assert(err == nil, "listening succeeds")
	s := ggrpc.NewServer(util.CommonUnaryInterceptors(), util.CommonStreamInterceptors())
	pb.RegisterHashSlotServer(s, NewHashSlotServer(n))
	go s.Serve(l)
	return &pb.LocationInfo{Host: "127.0.0.1", Port: strconv.Itoa(l.Addr().(*net.TCPAddr).Port)}
}

// ---- the network, for the symbolic run only; the native run uses gRPC over the loopback interface ----

var zzPeer *HashSlotServer

//gosym:model google.golang.org/grpc.Dial
func zzDial(target string, opts ...ggrpc.DialOption) (*ggrpc.ClientConn, error) {
	zzConns++
	c := &ggrpc.ClientConn{}
	zzConnTo[c] = target
	return c, nil
}

var zzConnTo = map[*ggrpc.ClientConn]string{}

// zzConns counts the open connections.
var zzConns int

//gosym:model (*google.golang.org/grpc.ClientConn).Close
func zzConnClose(c *ggrpc.ClientConn) error { zzConns--; return nil }

//gosym:model common/proto/pb.NewHashSlotClient
func zzNewClient(cc ggrpc.ClientConnInterface) pb.HashSlotClient { return &zzClient{} }

//gosym:model common/util.DetectServerIP
func zzServerIP() string { return "127.0.0.1" }

type zzClient struct{ pb.HashSlotClient }

func (c *zzClient) PrepareMigration(ctx context.Context, in *pb.PrepareReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return zzPeer.PrepareMigration(ctx, in)
}

func (c *zzClient) StreamingReceive(ctx context.Context, _ ...ggrpc.CallOption) (pb.HashSlot_StreamingReceiveClient, error) {
	s := &zzStream{ctx: ctx, items: make(chan *pb.MigrationItem, 1), resps: make(chan *pb.Response, 1), done: make(chan struct{})}
	go func() {
		s.err = zzPeer.StreamingReceive(&zzServerStream{zzStream: s})
		close(s.done)
	}()
	return s, nil
}

type zzStream struct {
	ctx   context.Context
	items chan *pb.MigrationItem
	resps chan *pb.Response
	done  chan struct{}
	err   error
}

func (s *zzStream) Send(i *pb.MigrationItem) error {
	select {
	case <-s.done:
		return io.EOF
	case s.items <- &pb.MigrationItem{Name: i.Name, Dest: i.Dest, Data: append([]byte{}, i.Data...)}:
		return nil
	}
}

func (s *zzStream) Recv() (*pb.Response, error) {
	select {
	case r := <-s.resps:
		return r, nil
	case <-s.done:
		if s.err == nil {
			return nil, io.EOF
		}
		return nil, s.err
	}
}
func (s *zzStream) CloseSend() error             { close(s.items); return nil }
func (s *zzStream) Header() (metadata.MD, error) { return nil, nil }
func (s *zzStream) Trailer() metadata.MD         { return nil }
func (s *zzStream) Context() context.Context     { return s.ctx }
func (s *zzStream) SendMsg(m any) error          { return errors.New("unused") }
func (s *zzStream) RecvMsg(m any) error          { return errors.New("unused") }

type zzServerStream struct {
	*zzStream
	ggrpc.ServerStream
}

func (s *zzServerStream) Send(r *pb.Response) error {
	s.resps <- &pb.Response{Success: r.Success, Message: r.Message}
	return nil
}
func (s *zzServerStream) Recv() (*pb.MigrationItem, error) {
	if s.ctx.Err() != nil { // a canceled call is never seen as finished
		return nil, s.ctx.Err()
	}
	select {
	case <-s.ctx.Done():
		return nil, s.ctx.Err()
	case i, ok := <-s.items:
		if !ok {
			return nil, io.EOF
		}
		return i, nil
	}
}
func (s *zzServerStream) Context() context.Context     { return s.ctx }
func (s *zzServerStream) SendMsg(m any) error          { return errors.New("unused") }
func (s *zzServerStream) RecvMsg(m any) error          { return errors.New("unused") }
func (s *zzServerStream) SetHeader(metadata.MD) error  { return nil }
func (s *zzServerStream) SendHeader(metadata.MD) error { return nil }
func (s *zzServerStream) SetTrailer(metadata.MD)       {}

var zzUuids int

//gosym:model github.com/google/uuid.NewString
func zzUuid() string {
	zzUuids++
	return "uuid-" + strconv.Itoa(zzUuids)
}
