package service

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/grpcapi"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/repo"
	"apiserver/internal/usecase/webapi"
	"common/hashslot"
	"common/proto/msg"
	"common/proto/pb"
	"common/registry"
	"common/response"
	"common/util"
	"common/verifrt"
	"common/verifrt/httpm"
	_ "common/verifrt/jsonm"
	"context"
	"errors"
	"hash/crc32"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"

	"github.com/tinylib/msgp/msgp"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
	ggrpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// ---- names whose slots are any ----

var zzSlots map[string]int

//gosym:model hash/crc32.ChecksumIEEE
func zzCrc(data []byte) uint32 {
	if s, ok := zzSlots[string(data)]; ok {
		return uint32(s)
	}
	return uint32(len(data))
}

// zzInSlot makes a name which has a slot together with a prefix.
func zzInSlot(prefix, name string, slot int) string {
	if verifrt.Symbolic() {
		zzSlots[prefix+name] = slot
		return name
	}
	for i := 0; ; i++ {
		if n := name + strconv.Itoa(i); int(crc32.ChecksumIEEE([]byte(prefix+n))&hashslot.MaxSlot) == slot {
			return n
		}
	}
}

// zzEdge makes any number of up to five digits and its text.
func zzEdge(name string) (int, string) {
	b := verifrt.AnyBytes(name, 5)
	v := 0
	for _, c := range b {
		verifrt.Assume(verifrt.And(c >= '0', c <= '9'))
		v = v*10 + int(c-'0')
	}
	return v, string(b)
}

// ---- metadata servers which note what they are asked ----

type zzMetaNode struct {
	pb.UnimplementedMetadataApiServer
	w     *zzMetas
	id    string
	addr  string
	peers []string
	fail  error // of every request
	deaf  bool  // doesn't tell its peers
	stop  func()
}

type zzMetas struct {
	clientv3.KV
	mu    sync.Mutex
	nodes map[string]*zzMetaNode // by address
	got   []string               // server, method and name of every request
	slots map[string]hashslot.SlotInfo
	bad   error // of etcd
	conns map[*ggrpc.ClientConn]string
	open  int
	dials int
}

var zzMetaNet *zzMetas

func zzMetasNew() *zzMetas {
	w := &zzMetas{nodes: map[string]*zzMetaNode{}, slots: map[string]hashslot.SlotInfo{}, conns: map[*ggrpc.ClientConn]string{}}
	zzMetaNet, zzSlots = w, map[string]int{}
	pool.Config = &config.Config{}
	pool.Config.Registry.Group, pool.Config.Discovery.MetaServName = "g", "meta"
	pool.Etcd = &clientv3.Client{KV: w}
	webapi.VerifTransport(httpm.Transport(func(r *http.Request) (*http.Response, error) {
		w.mu.Lock()
		n := w.nodes[r.URL.Host]
		w.mu.Unlock()
		if n == nil {
			return nil, errors.New("connection refused")
		}
		name := strings.TrimPrefix(r.URL.Path, "/bucket/")
		if n.note(r.Method, name) != nil {
			return httpm.Response(403, nil, []byte(`{"message":"no"}`)), nil
		}
		return httpm.Response(map[string]int{"PUT": 200, "DELETE": 204}[r.Method], nil, nil), nil
	}))
	return w
}

func (w *zzMetas) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if w.bad != nil {
		return nil, w.bad
	}
	res := &clientv3.GetResponse{}
	for _, id := range []string{"A", "B", "C"} {
		k := "g/hash_slot/" + id
		if info, ok := w.slots[id]; ok && strings.HasPrefix(k, key) {
			bt, err := util.EncodeMsgp(&info)
			verifrt.Assert(err == nil, "slots are encoded")
			res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: bt})
		}
	}
	return res, nil
}

func (w *zzMetas) add(id string, peers ...string) *zzMetaNode {
	n := &zzMetaNode{w: w, id: id, addr: "10.0.1." + strconv.Itoa(len(w.nodes)+1) + ":90", peers: peers}
	if !verifrt.Symbolic() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		verifrt.Assert(err == nil, "listening succeeds")
		s := ggrpc.NewServer()
		pb.RegisterMetadataApiServer(s, n)
		go s.Serve(l)
		n.addr, n.stop = l.Addr().String(), s.Stop
	}
	w.nodes[n.addr] = n
	return n
}

// down makes a server unreachable.
func (n *zzMetaNode) down() {
	n.w.mu.Lock()
	delete(n.w.nodes, n.addr)
	n.w.mu.Unlock()
	if n.stop != nil {
		n.stop()
	}
}

func (n *zzMetaNode) note(method, name string) error {
	n.w.mu.Lock()
	defer n.w.mu.Unlock()
	n.w.got = append(n.w.got, n.id+" "+method+" "+name)
	return n.fail
}

func (n *zzMetaNode) GetPeers(context.Context, *pb.Empty) (*pb.Strings, error) {
	if n.deaf {
		return nil, status.Error(codes.Internal, "no peers")
	}
	return &pb.Strings{Data: n.peers}, nil
}

func zzPack(m msgp.Marshaler, err error) (*pb.Msgpack, error) {
	if err != nil {
		return nil, err
	}
	bt, err := util.EncodeMsgp(m)
	verifrt.Assert(err == nil, "an answer is encoded")
	return &pb.Msgpack{Data: bt}, nil
}

func (n *zzMetaNode) GetBucket(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	return zzPack(&msg.Bucket{Name: n.id}, n.note("GetBucket", r.Id))
}

func (n *zzMetaNode) GetMetadata(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	return zzPack(&msg.Metadata{Name: n.id}, n.note("GetMetadata", r.Id))
}

func (n *zzMetaNode) GetVersion(_ context.Context, r *pb.MetaReq) (*pb.Msgpack, error) {
	return zzPack(&msg.Version{Hash: n.id, Sequence: uint64(r.Version)}, n.note("GetVersion", r.Id))
}

func (n *zzMetaNode) SaveMetadata(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	return &pb.Empty{}, n.note("SaveMetadata", r.Id)
}

func (n *zzMetaNode) SaveVersion(_ context.Context, r *pb.Metadata) (*pb.Int32, error) {
	return &pb.Int32{Data: 7}, n.note("SaveVersion", r.Id)
}

func (n *zzMetaNode) UpdateVersion(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	return &pb.Empty{}, n.note("UpdateVersion "+strconv.Itoa(int(r.Version)), r.Id)
}

func (n *zzMetaNode) SaveBucket(_ context.Context, r *pb.Metadata) (*pb.Empty, error) {
	return &pb.Empty{}, n.note("SaveBucket", r.Id)
}

func (n *zzMetaNode) RemoveVersion(_ context.Context, r *pb.MetaReq) (*pb.Empty, error) {
	return &pb.Empty{}, n.note("RemoveVersion "+strconv.Itoa(int(r.Version)), r.Id)
}

// ---- the network, for the symbolic run only; the native run uses gRPC over the loopback interface ----

//gosym:model google.golang.org/grpc.Dial
func zzDial(target string, opts ...ggrpc.DialOption) (*ggrpc.ClientConn, error) {
	w := zzMetaNet
	w.mu.Lock()
	defer w.mu.Unlock()
	c := &ggrpc.ClientConn{}
	w.conns[c] = target
	w.dials++
	w.open++
	return c, nil
}

//gosym:model google.golang.org/grpc.WithInsecure
func zzInsecure() ggrpc.DialOption { return ggrpc.EmptyDialOption{} }

//gosym:model (*google.golang.org/grpc.ClientConn).Close
func zzCloseConn(c *ggrpc.ClientConn) error {
	w := zzMetaNet
	w.mu.Lock()
	defer w.mu.Unlock()
	w.open--
	return nil
}

//gosym:model (*google.golang.org/grpc.ClientConn).Invoke
func zzInvoke(c *ggrpc.ClientConn, ctx context.Context, method string, args, reply any, opts ...ggrpc.CallOption) error {
	zzMetaNet.mu.Lock()
	p := zzMetaNet.nodes[zzMetaNet.conns[c]]
	zzMetaNet.mu.Unlock()
	if p == nil {
		return status.Error(codes.Unavailable, "connection refused")
	}
	pack := func(r *pb.Msgpack, err error) error {
		if err == nil {
			reply.(*pb.Msgpack).Data = r.Data
		}
		return err
	}
	switch method[strings.LastIndexByte(method, '/')+1:] {
	case "GetPeers":
		r, err := p.GetPeers(ctx, args.(*pb.Empty))
		if err == nil {
			reply.(*pb.Strings).Data = r.Data
		}
		return err
	case "GetBucket":
		return pack(p.GetBucket(ctx, args.(*pb.MetaReq)))
	case "GetMetadata":
		return pack(p.GetMetadata(ctx, args.(*pb.MetaReq)))
	case "GetVersion":
		return pack(p.GetVersion(ctx, args.(*pb.MetaReq)))
	case "SaveMetadata":
		_, err := p.SaveMetadata(ctx, args.(*pb.Metadata))
		return err
	case "SaveVersion":
		r, err := p.SaveVersion(ctx, args.(*pb.Metadata))
		if err == nil {
			reply.(*pb.Int32).Data = r.Data
		}
		return err
	case "UpdateVersion":
		_, err := p.UpdateVersion(ctx, args.(*pb.Metadata))
		return err
	case "SaveBucket":
		_, err := p.SaveBucket(ctx, args.(*pb.Metadata))
		return err
	case "RemoveVersion":
		_, err := p.RemoveVersion(ctx, args.(*pb.MetaReq))
		return err
	}
	panic("verifrt: " + method)
}

// ---- the harnesses ----

const zzMetaOps = 9

// zzMetaOp does one operation on an object or a bucket, and tells how a server is asked for it.
func zzMetaOp(op int, name, buk string) (request string, read bool, err error) {
	m, v, b := repo.NewMetadataRepo(), repo.NewVersionRepo(), repo.NewBucketRepo()
	switch op {
	case 0:
		_, err = m.FindByName(name, "b", true)
		return "GetMetadata b/" + name, true, err
	case 1:
		x, err := v.Find(name, "b", 5)
		if err == nil {
			verifrt.Assert(x.Sequence == 5, "the version asked for is read")
		}
		return "GetVersion b/" + name, true, err
	case 2:
		_, err = b.Get(buk)
		return "GetBucket " + buk, true, err
	case 3:
		return "SaveMetadata b/" + name, false, m.Insert(&entity.Metadata{Name: name, Bucket: "b"})
	case 4:
		n, err := v.Add(name, "b", &entity.Version{Hash: "h"})
		verifrt.Assert((err == nil) == (n == 7), "the number of a version saved is the one the server gave")
		return "SaveVersion b/" + name, false, err
	case 5:
		return "UpdateVersion 5 b/" + name, false, v.Update(name, "b", &entity.Version{Sequence: 5})
	case 6:
		return "RemoveVersion 5 b/" + name, false, v.Delete(name, "b", 5)
	case 7:
		return "SaveBucket " + buk, false, b.Create(&entity.Bucket{Name: buk})
	}
	if verifrt.Choice("delete", 2) == 1 {
		return "DELETE " + buk, false, b.Delete(buk)
	}
	return "PUT " + buk, false, b.Update(&entity.Bucket{Name: buk})
}

// Slots of two groups with any edges, a name in any slot: every request goes to the group that owns the slot, before
// and after slots move or another node leads.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:harness C39 quick=100s thorough=600s
func VerifC39Route() {
	w := zzMetasNew()
	a1, a2, b1 := w.add("a1", "a2", "a3"), w.add("a2", "a1", "a3"), w.add("b1")
	pool.Discovery = registry.VerifDiscovery(map[string]map[string]string{
		"meta": {"a1_master": a1.addr, "a2_slave": a2.addr, "b1_master": b1.addr}, "others": {"b1_master": "10.9.9.9:9"}})
	x, xs := zzEdge("x")
	y, ys := zzEdge("y")
	z, zs := zzEdge("z")
	verifrt.Assume(x < y)
	verifrt.Assume(y < z)
	verifrt.Assume(z <= hashslot.MaxSlot+1)
	w.slots["A"] = hashslot.SlotInfo{GroupID: "A", ServerID: "a1", Slots: []string{xs + "-" + ys}}
	w.slots["B"] = hashslot.SlotInfo{GroupID: "B", ServerID: "b1", Slots: []string{ys + "-" + zs}}
	slot := verifrt.Int("slot", 0, hashslot.MaxSlot)
	name, buk := zzInSlot("b/", "n", slot), zzInSlot("", "k", slot)
	ok := zzRouted(w, name, buk, x <= slot && slot < y, y <= slot && slot < z, "a1", "a1", "a2")
	switch verifrt.Choice("then", 3) {
	case 0: // the edge moves
		verifrt.Assume(ok)
		e, es := zzEdge("e")
		verifrt.Assume(e > x)
		verifrt.Assume(e < z)
		w.slots["A"] = hashslot.SlotInfo{GroupID: "A", ServerID: "a1", Slots: []string{xs + "-" + es}}
		w.slots["B"] = hashslot.SlotInfo{GroupID: "B", ServerID: "b1", Slots: []string{es + "-" + zs}}
		zzRouted(w, name, buk, slot < e, slot >= e, "a1", "a1", "a2")
		verifrt.Reach("moved")
	case 1: // another node leads
		verifrt.Assume(ok)
		w.slots["A"] = hashslot.SlotInfo{GroupID: "A", ServerID: "a2", Slots: []string{xs + "-" + ys}}
		zzRouted(w, name, buk, slot < y, slot >= y, "a2", "a1", "a2")
		verifrt.Reach("elected")
	case 2: // nothing is served twice
		verifrt.Assume(ok)
		e, es := zzEdge("e")
		verifrt.Assume(e < y)
		w.slots["B"] = hashslot.SlotInfo{GroupID: "B", ServerID: "b1", Slots: []string{es + "-" + zs}}
		w.got = nil
		_, _, err := zzMetaOp(verifrt.Choice("op", zzMetaOps), name, buk)
		verifrt.Assert(err != nil && len(w.got) == 0, "nothing is asked while slots overlap")
		verifrt.Reach("overlap")
	}
}

// zzRouted does an operation and checks which server was asked.
func zzRouted(w *zzMetas, name, buk string, inA, inB bool, leader string, members ...string) bool {
	w.got = nil
	req, read, err := zzMetaOp(verifrt.Choice("op", zzMetaOps), name, buk)
	if !inA && !inB {
		verifrt.Assert(err != nil && len(w.got) == 0, "nothing is asked for a name nobody owns")
		verifrt.Reach("nobody")
		return false
	}
	verifrt.Assert(err == nil && len(w.got) == 1, "one server is asked")
	switch {
	case inB:
		verifrt.Assert(w.got[0] == "b1 "+req, "the group that owns a name is asked")
		verifrt.Reach("b1")
	case !read:
		verifrt.Assert(w.got[0] == leader+" "+req, "the leader of the group that owns a name is told to change it")
		verifrt.Reach("leader")
	default:
		one := false
		for _, m := range members {
			if w.got[0] == m+" "+req {
				one = true
				verifrt.Reach("read from " + m)
			}
		}
		verifrt.Assert(one, "a member of the group that owns a name is asked")
	}
	return true
}

// Servers are missing, unreachable or refuse: the caller is told, and no other group is asked.
//
//gosym:harness C39 quick=60s thorough=300s
func VerifC39Fault() {
	w := zzMetasNew()
	a1, a2, b1 := w.add("a1", "a2"), w.add("a2", "a1"), w.add("b1")
	known := map[string]string{"a1_master": a1.addr, "a2_slave": a2.addr, "b1_master": b1.addr}
	w.slots["A"] = hashslot.SlotInfo{GroupID: "A", ServerID: "a1", Slots: []string{"0-8000"}}
	w.slots["B"] = hashslot.SlotInfo{GroupID: "B", ServerID: "b1", Slots: []string{"8000-16384"}}
	name, buk := zzInSlot("b/", "n", 3), zzInSlot("", "k", 4)
	op := verifrt.Choice("op", zzMetaOps)
	want := -1 // the status of a failure, 0 if any
	reads := []string{"a1", "a2"}
	switch fault := verifrt.Choice("fault", 10); fault {
	case 0:
		w.bad, want = errors.New("no etcd"), 0
	case 1:
		w.slots, want = map[string]hashslot.SlotInfo{}, 503
	case 2: // the leader is not registered
		delete(known, "a1_master")
		want = 0
	case 3:
		a1.down()
		want = 0
	case 4: // the leader doesn't tell its peers
		a1.deaf = true
		reads = []string{"a1"}
	case 5: // a peer isn't registered
		delete(known, "a2_slave")
		reads = []string{"a1"}
	default:
		code := []codes.Code{codes.NotFound, codes.InvalidArgument, codes.PermissionDenied, codes.Internal}[fault-6]
		want = []int{404, 400, 403, 500}[fault-6]
		a1.fail, a2.fail = status.Error(code, "no"), status.Error(code, "no")
		if op == 8 {
			want = 403
		}
	}
	pool.Discovery = registry.VerifDiscovery(map[string]map[string]string{"meta": known})
	req, read, err := zzMetaOp(op, name, buk)
	for _, g := range w.got {
		verifrt.Assert(!strings.HasPrefix(g, "b1"), "no other group is asked")
		verifrt.Assert(read || strings.HasPrefix(g, "a1"), "only the leader is told to change something")
	}
	switch {
	case want == -1:
		verifrt.Assert(err == nil && len(w.got) == 1, "one server is asked")
		one := w.got[0] == "a1 "+req
		if read {
			for _, r := range reads {
				one = one || w.got[0] == r+" "+req
			}
		}
		verifrt.Assert(one, "a member of the group that is known is asked")
		verifrt.Reach("asked")
	case want == 0:
		if !read || len(w.got) == 0 {
			verifrt.Assert(err != nil, "a failure is told")
		}
		verifrt.Reach("failed")
	default:
		verifrt.Assert(response.CheckErrStatus(want, err), "a failure is told with its status")
		verifrt.Reach("refused")
	}
}

// Requests at the same time share one connection to a server, and all are closed in the end.
//
//gosym:harness C39 quick=60s thorough=300s
func VerifC39Share() {
	w := zzMetasNew()
	a, b := w.add("a1"), w.add("b1")
	w.slots["A"] = hashslot.SlotInfo{GroupID: "A", ServerID: "a1", Slots: []string{"0-8000"}}
	w.slots["B"] = hashslot.SlotInfo{GroupID: "B", ServerID: "b1", Slots: []string{"8000-16384"}}
	pool.Discovery = registry.VerifDiscovery(map[string]map[string]string{"meta": {"a1_master": a.addr, "b1_master": b.addr}})
	names := []string{zzInSlot("b/", "n", 3), zzInSlot("b/", "o", 9000)}
	verifrt.Races()
	var wg sync.WaitGroup
	n := verifrt.Bound("requests", 3, 4)
	verifrt.Schedules(1)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			_, err := repo.NewVersionRepo().Add(names[i%2], "b", &entity.Version{Hash: "h"})
			verifrt.Assert(err == nil, "a version is saved")
		}(i)
	}
	wg.Wait()
	verifrt.EndSchedules()
	verifrt.Assert(len(w.got) == n, "every request is done once")
	if verifrt.Symbolic() {
		verifrt.Assert(w.dials == 2, "there is one connection to a server")
	}
	verifrt.Assert(grpcapi.Close() == nil, "connections are closed")
	if verifrt.Symbolic() {
		verifrt.Assert(w.open == 0, "every connection is closed")
	}
	verifrt.Reach("shared")
}
