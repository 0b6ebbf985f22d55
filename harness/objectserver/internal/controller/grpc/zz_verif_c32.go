package grpc

import (
	"common/proto/pb"
	"common/util"
	"common/verifrt"
	"common/verifrt/httpm"
	"common/verifrt/jsonm"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"objectserver/internal/usecase/webapi"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	ggrpc "google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

func zzBytes(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + seed*101 + 1)
	}
	b[n/2] = verifrt.AnyByte("content")
	return b
}

// zzDisc is a registry with fixed content.
type zzDisc struct {
	self  string
	peers []string
	metas map[string]string
}

func (d *zzDisc) GetServices(name string) []string {
	if name == "objs" {
		return append([]string{}, d.peers...)
	}
	var r []string
	for _, v := range d.metas {
		r = append(r, v)
	}
	return r
}
func (d *zzDisc) GetServiceMapping(name string) map[string]string { return d.metas }
func (d *zzDisc) GetServiceMappingWith(name string, master bool) map[string]string {
	if name == "meta" && master {
		return d.metas
	}
	return map[string]string{}
}
func (d *zzDisc) GetService(name string, id string) (string, bool) {
	return d.self, name == "objs" && d.self != ""
}

func zzWorld() *service.VerifCache {
	c := service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	pool.Config.Registry.Name = "objs"
	pool.Config.Registry.ServerPort = "80"
	pool.Config.Registry.ServerID = "self"
	pool.Config.Discovery.MetaServName = "meta"
	return c
}

// zzIn is what a sender sends.
type zzIn struct {
	ggrpc.ServerStream
	items []*pb.ObjectData
	err   error
	resp  *pb.Response
}

func (s *zzIn) Recv() (*pb.ObjectData, error) {
	if len(s.items) == 0 {
		if s.err != nil {
			return nil, s.err
		}
		return nil, io.EOF
	}
	i := s.items[0]
	s.items = s.items[1:]
	return i, nil
}
func (s *zzIn) SendAndClose(r *pb.Response) error { s.resp = r; return nil }
func (s *zzIn) SendMsg(m any) error               { s.resp = m.(*pb.Response); return nil }
func (s *zzIn) Context() context.Context          { return context.Background() }

func zzPieces(name string, data []byte, size, step int) (r []*pb.ObjectData) {
	for i := 0; i < len(data); i += step {
		e := i + step
		if e > len(data) {
			e = len(data)
		}
		r = append(r, &pb.ObjectData{FileName: name, Size: int64(size), Data: data[i:e]})
	}
	return
}

func zzSend(ms *MigrationServer, in *zzIn) bool {
	err := ms.ReceiveData(in)
	verifrt.Drain()
	return err == nil && in.resp != nil && in.resp.Success
}

func zzStored(name string, size int) ([]byte, bool) {
	var b strings.Builder
	err := service.Get(name, 0, int64(size), false, &b)
	verifrt.Drain()
	return []byte(b.String()), err == nil
}

// An object arrives whole or not at all, and its metadata is told the new place before the sender may drop it.
//
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:with objectserver/internal/usecase/webapi/zz_verif_support.go
//gosym:harness C32 quick=60s thorough=600s
func VerifC32Receive() {
	c := zzWorld()
	ms := NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	n := []int{4096, 100, 9000}[verifrt.Choice("size", 3)]
	data := zzBytes(n, 1)
	have := verifrt.Choice("already here", 3)
	switch have {
	case 1: // the same object
		verifrt.Assert(service.Put("h.2", strings.NewReader(string(data)), false) == nil, "an object is stored")
	case 2: // another one
		verifrt.Assert(service.Put("h.3", strings.NewReader("other"), false) == nil, "an object is stored")
	}
	verifrt.Drain()
	padded := len(data)
	if have == 1 {
		padded = (n + 4095) / 4096 * 4096
	}
	sent := append(append([]byte{}, data...), make([]byte, padded-n)...)
	step := []int{5000, 4096, 1 << 20}[verifrt.Choice("pieces", 3)]
	cut := verifrt.Choice("cut", 4)
	in := &zzIn{items: zzPieces("h.2", sent, padded, step)}
	switch cut {
	case 1: // the connection breaks
		in.items = in.items[:len(in.items)-1]
		in.err = errors.New("connection lost")
	case 2: // the source ends early
		in.items = in.items[:len(in.items)-1]
	case 3: // nothing is sent
		in.items = nil
	}
	empty := len(in.items) == 0
	ok := zzSend(ms, in)
	if cut != 0 && have != 1 {
		verifrt.Assert(!ok || empty, "an object that did not arrive whole is not reported as received")
		_, found := zzStored("h.2", n)
		verifrt.Assert(!found && !service.Exist("h.2"), "an object that did not arrive whole does not exist")
		in = &zzIn{items: zzPieces("h.2", sent, padded, step)}
		ok = zzSend(ms, in)
	}
	verifrt.Assert(ok || cut == 1, "an object that arrived whole is reported as received")
	if verifrt.Choice("expired", 2) == 1 {
		c.Forget()
	}
	got, found := zzStored("h.2", n)
	verifrt.Assert(found && verifrt.EqBytes(got, data), "a received object is read as it was sent")
	files, total := service.VerifFiles()
	want := 1
	if have == 2 {
		want = 2
	}
	verifrt.Assert(len(files) == want && pool.ObjectCap.Capacity() == total, "the capacity is the size of the objects and nothing else is left")
	verifrt.Reach("received")
}

// An object is finished exactly when it is here with the announced size and every metadata server that may know it was told.
//
//gosym:harness C32 quick=60s thorough=600s
func VerifC32Finish() {
	zzWorld()
	d := &zzDisc{self: "10.0.0.1:80", metas: map[string]string{}}
	pool.Discovery = d
	ms := NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	data := zzBytes(4096, 1)
	name := []string{"h.2", "h.12", "a.b.0"}[verifrt.Choice("name", 3)]
	verifrt.Assert(service.Put(name, strings.NewReader(string(data)), false) == nil, "an object is stored")
	verifrt.Drain()
	cap0 := pool.ObjectCap.Capacity()
	k := verifrt.Choice("servers", verifrt.Bound("metadata servers", 4, 5))
	bad := false
	answer := map[string]int{}
	for i := 0; i < k; i++ {
		a := "m" + strconv.Itoa(i) + ":1"
		d.metas["s"+strconv.Itoa(i)] = a
		answer[a] = []int{200, 404, 500, 0}[verifrt.Choice("answer", 4)]
		if answer[a] == 500 || answer[a] == 0 {
			bad = true
		}
	}
	var mu sync.Mutex
	told := map[string]int{}
	webapi.VerifTransport(httpm.Transport(func(r *http.Request) (*http.Response, error) {
		mu.Lock()
		defer mu.Unlock()
		b, _ := io.ReadAll(r.Body)
		t := jsonm.Text(b)
		i := strings.LastIndexByte(name, '.')
		verifrt.Assert(r.Method == "PATCH" && r.URL.Path == "/version/locate", "the locate is updated")
		verifrt.Assert(t["hash"] == name[:i] && t["locateIndex"] == name[i+1:] && t["locate"] == "10.0.0.1:80", "the new place of this shard is this server")
		told[r.URL.Host]++
		if answer[r.URL.Host] == 0 {
			return nil, errors.New("unreachable")
		}
		return httpm.Response(answer[r.URL.Host], nil, nil), nil
	}))
	req := &pb.ObjectInfo{FileName: name, Size: 4096, OriginLocate: "10.0.0.9:80"}
	wrong := verifrt.Choice("wrong", 4)
	switch wrong {
	case 1:
		req.Size = 4095
	case 2:
		req.FileName = "x.1"
	case 3:
		d.self = ""
	}
	resp, err := ms.FinishReceive(context.Background(), req)
	verifrt.Drain()
	verifrt.Assert(err == nil && resp != nil, "finishing always answers")
	verifrt.Assert(resp.Success == (wrong == 0 && k > 0 && !bad), "an object is finished exactly when it is here and every metadata server was told")
	if resp.Success {
		verifrt.Assert(len(told) == k, "every metadata server is told once")
		verifrt.Reach("finished")
	}
	verifrt.Assert(pool.ObjectCap.Capacity() == cap0, "finishing does not change the capacity")
	got, found := zzStored(name, 4096)
	verifrt.Assert(found && verifrt.EqBytes(got, data), "the object stays as it is")
	verifrt.Reach("end")
}

// zzPeer is a server that receives objects and fails as told.
type zzPeer struct {
	pb.UnimplementedObjectMigrationServer
	mu       sync.Mutex
	got      map[string][]byte
	done     map[string]bool
	failRecv string // the object whose data it refuses
	failFin  string // the object it does not finish
	bytes    []int64
	asked    []*pb.RequiredInfo
	failReq  bool // refuses to send
}

func (p *zzPeer) ReceiveData(s pb.ObjectMigration_ReceiveDataServer) error {
	var all []byte
	name := ""
	for {
		d, err := s.Recv()
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		name = d.FileName
		if name == p.failRecv {
			return s.SendAndClose(&pb.Response{Success: false, Message: "disk full"})
		}
		all = append(all, d.Data...)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	p.got[name] = all
	return s.SendAndClose(&pb.Response{Success: true})
}

func (p *zzPeer) FinishReceive(_ context.Context, i *pb.ObjectInfo) (*pb.Response, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i.FileName == p.failFin || int64(len(p.got[i.FileName])) != i.Size {
		return &pb.Response{Success: false, Message: "fail"}, nil
	}
	p.done[i.FileName] = true
	p.bytes = append(p.bytes, i.Size)
	return &pb.Response{Success: true}, nil
}

// zzListen makes a peer reachable and returns its address.
func zzListen(p *zzPeer, i int) string {
	if verifrt.Symbolic() {
		a := "10.0.1." + strconv.Itoa(i) + ":80"
		zzPeers[a] = p
		return a
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	verifrt.Assert(err == nil, "listening succeeds")
	s := ggrpc.NewServer(ggrpc.MaxRecvMsgSize(8<<20), util.CommonUnaryInterceptors(), util.CommonStreamInterceptors())
	pb.RegisterObjectMigrationServer(s, p)
	go s.Serve(l)
	return l.Addr().String()
}

// ---- the network, for the symbolic run only; the native run uses gRPC over the loopback interface ----

var (
	zzPeers = map[string]*zzPeer{}
	zzConns = map[*ggrpc.ClientConn]*zzConn{} // the open ones
)

type zzConn struct {
	target string
	closed chan struct{}
}

//gosym:model google.golang.org/grpc.Dial
func zzDial(target string, opts ...ggrpc.DialOption) (*ggrpc.ClientConn, error) {
	c := &ggrpc.ClientConn{}
	zzConns[c] = &zzConn{target, make(chan struct{})}
	return c, nil
}

//gosym:model google.golang.org/grpc.WithInsecure
func zzInsecure() ggrpc.DialOption { return nil }

//gosym:model (*google.golang.org/grpc.ClientConn).Close
func zzConnClose(c *ggrpc.ClientConn) error {
	close(zzConns[c].closed)
	delete(zzConns, c)
	return nil
}

//gosym:model common/proto/pb.NewObjectMigrationClient
func zzNewClient(cc ggrpc.ClientConnInterface) pb.ObjectMigrationClient {
	c := zzConns[cc.(*ggrpc.ClientConn)]
	return &zzClient{p: zzPeers[c.target], c: c}
}

type zzClient struct {
	pb.ObjectMigrationClient
	p *zzPeer
	c *zzConn
}

func (c *zzClient) FinishReceive(ctx context.Context, in *pb.ObjectInfo, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return c.p.FinishReceive(ctx, in)
}

func (c *zzClient) ReceiveData(ctx context.Context, _ ...ggrpc.CallOption) (pb.ObjectMigration_ReceiveDataClient, error) {
	s := &zzStream{items: make(chan *pb.ObjectData), resp: make(chan *pb.Response, 1), done: make(chan struct{}), conn: c.c}
	go func() {
		s.err = c.p.ReceiveData(&zzServerStream{s: s})
		close(s.done)
	}()
	return s, nil
}

type zzStream struct {
	ggrpc.ClientStream
	items chan *pb.ObjectData
	resp  chan *pb.Response
	done  chan struct{}
	err   error
	conn  *zzConn
}

func (s *zzStream) Send(d *pb.ObjectData) error {
	select {
	case <-s.done:
		return io.EOF
	case s.items <- &pb.ObjectData{FileName: d.FileName, Size: d.Size, Data: append([]byte{}, d.Data...)}:
		return nil
	}
}
func (s *zzStream) CloseAndRecv() (*pb.Response, error) {
	close(s.items)
	<-s.done
	select {
	case r := <-s.resp:
		return r, nil
	default:
		if s.err == nil {
			return nil, io.EOF
		}
		return nil, s.err
	}
}

type zzServerStream struct {
	ggrpc.ServerStream
	s *zzStream
}

func (x *zzServerStream) Recv() (*pb.ObjectData, error) {
	select {
	case <-x.s.conn.closed:
		return nil, context.Canceled
	case d, ok := <-x.s.items:
		if !ok {
			return nil, io.EOF
		}
		return d, nil
	}
}
func (x *zzServerStream) SendAndClose(r *pb.Response) error { x.s.resp <- r; return nil }
func (x *zzServerStream) SendMsg(m any) error               { x.s.resp <- m.(*pb.Response); return nil }
func (x *zzServerStream) Context() context.Context          { return context.Background() }
func (x *zzServerStream) SetHeader(metadata.MD) error       { return nil }

// Sending objects away hands each of them over unchanged and drops it only when the target has finished it;
// what fails stays. Uploads in progress stay.
//
//gosym:harness C32 quick=60s thorough=600s
func VerifC32Send() {
	c := zzWorld()
	pool.Discovery = &zzDisc{self: "10.0.0.1:80"}
	names := []string{"g.0", "h.1", "h.2"}
	sizes := []int{9000, 100, 4096}
	k := 1 + verifrt.Choice("objects", 3)
	datas := map[string][]byte{}
	stored := map[string][]byte{}
	total := 0
	for i := 0; i < k; i++ {
		datas[names[i]] = zzBytes(sizes[i], i)
		verifrt.Assert(service.Put(names[i], strings.NewReader(string(datas[names[i]])), false) == nil, "an object is stored")
		stored[names[i]] = append(append([]byte{}, datas[names[i]]...), make([]byte, (sizes[i]+4095)/4096*4096-sizes[i])...)
		total += len(stored[names[i]])
	}
	temp := service.VerifStores[0] + "/TempInfo_u"
	verifrt.Assert(os.WriteFile(temp, []byte("upload"), 0o644) == nil, "an upload is in progress")
	verifrt.Drain()
	targets := 1 + verifrt.Choice("targets", 2)
	want := map[string]int64{}
	peers := map[string]*zzPeer{}
	fail := verifrt.Choice("failure", 3)
	bad := names[0]
	for i := 0; i < targets; i++ {
		p := &zzPeer{got: map[string][]byte{}, done: map[string]bool{}}
		if fail == 1 {
			p.failRecv = bad
		}
		if fail == 2 {
			p.failFin = bad
		}
		a := zzListen(p, i)
		peers[a] = p
		want[a] = int64([]int{1, 4096, 5000, 100000}[verifrt.Choice("amount", 4)])
	}
	if verifrt.Choice("cached", 2) == 1 {
		c.Set(names[0], datas[names[0]])
	}
	err := service.NewMigrationService(pool.ObjectCap).SendingTo("10.0.0.1:80", want)
	verifrt.Drain()
	sent := int64(0)
	failed := false
	for _, n := range names[:k] {
		owners := 0
		tried := false
		for _, p := range peers {
			if b, ok := p.got[n]; ok {
				verifrt.Assert(verifrt.EqBytes(b, stored[n]), "an object arrives as it is stored")
			}
			_, t := p.got[n]
			tried = tried || t
			if p.done[n] {
				owners++
			}
		}
		verifrt.Assert(owners <= 1, "an object is sent to one server")
		got, ok := zzStored(n, len(datas[n]))
		if owners == 1 {
			verifrt.Assert(!ok && !service.Exist(n), "an object the target finished is dropped")
			sent += int64(len(stored[n]))
			verifrt.Reach("sent")
		} else {
			verifrt.Assert(ok && verifrt.EqBytes(got, datas[n]), "an object no target finished stays")
			if tried || fail == 1 && n == bad {
				failed = true
			}
		}
	}
	verifrt.Assert((err != nil) == failed, "sending fails exactly when an object was not handed over")
	need := int64(0)
	var all []int64
	for a, p := range peers {
		need += want[a]
		all = p.bytes
		sum := int64(0)
		big := int64(0)
		for _, b := range all {
			sum += b
			if b > big {
				big = b
			}
		}
		verifrt.Assert(sum-big < want[a], "a server is not sent more than it should take, but for the last object")
	}
	if fail == 0 {
		verifrt.Assert(sent >= need || sent == int64(total), "the required amount is sent, or everything")
	}
	_, err = os.Stat(temp)
	verifrt.Assert(err == nil, "an upload in progress stays")
	files, size := service.VerifFiles()
	sort.Strings(files)
	verifrt.Assert(pool.ObjectCap.Capacity() == size-6, "the capacity is the size of the objects that stay")
	verifrt.Reach("end")
}

func (p *zzPeer) RequireSend(_ context.Context, i *pb.RequiredInfo) (*pb.Response, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.asked = append(p.asked, i)
	if p.failReq {
		return nil, errors.New("fails")
	}
	return &pb.Response{Success: true}, nil
}

func (c *zzClient) RequireSend(ctx context.Context, in *pb.RequiredInfo, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return c.p.RequireSend(ctx, in)
}

// zzCluster makes peers that report capacities.
func zzCluster(d *zzDisc, n int, caps []int64, reach []bool) []*zzPeer {
	var ps []*zzPeer
	byAddr := map[string]int{}
	for i := 0; i < n; i++ {
		p := &zzPeer{got: map[string][]byte{}, done: map[string]bool{}}
		a := zzListen(p, i)
		d.peers = append(d.peers, a)
		ps = append(ps, p)
		byAddr[a] = i
	}
	http.DefaultTransport = httpm.Transport(func(r *http.Request) (*http.Response, error) {
		i, ok := byAddr[r.URL.Host]
		verifrt.Assert(ok && r.Method == "GET" && r.URL.Path == "/stat", "the other servers are asked for their capacity")
		if !reach[i] {
			return nil, errors.New("unreachable")
		}
		return httpm.Response(200, map[string]string{"Capacity": strconv.FormatInt(caps[i], 10)}, nil), nil
	})
	return ps
}

// A server that leaves hands over all its objects, each to one server, and evens the others out; a failure keeps what was not handed over.
//
//gosym:harness C32 quick=60s thorough=600s
func VerifC32Leave() {
	zzWorld()
	d := &zzDisc{self: "10.0.0.1:80"}
	pool.Discovery = d
	ms := NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	names := []string{"g.0", "h.1", "h.2"}
	k := verifrt.Choice("objects", 4)
	datas := map[string][]byte{}
	total := int64(0)
	for i := 0; i < k; i++ {
		datas[names[i]] = zzBytes([]int{9000, 100, 4096}[i], i)
		verifrt.Assert(service.Put(names[i], strings.NewReader(string(datas[names[i]])), false) == nil, "an object is stored")
	}
	verifrt.Drain()
	own := pool.ObjectCap.Capacity()
	n := verifrt.Choice("servers", 4)
	caps, reach := make([]int64, n), make([]bool, n)
	live := 0
	for i := range caps {
		caps[i] = []int64{0, 4096, 20000}[verifrt.Choice("capacity", 3)]
		reach[i] = i == 0 || i == n-1 || verifrt.Choice("reachable", 2) == 0
		if reach[i] {
			live++
			total += caps[i]
		}
	}
	total += own
	ps := zzCluster(d, n, caps, reach)
	d.peers = append(d.peers, d.self)
	fail := n > 0 && k > 0 && verifrt.Choice("failure", 2) == 1
	if fail {
		for _, p := range ps {
			p.failFin = "g.0"
		}
	}
	resp, err := ms.LeaveCommand(context.Background(), &pb.EmptyReq{})
	verifrt.Drain()
	verifrt.Assert(err == nil && resp != nil, "leaving answers")
	left := 0
	for _, name := range names[:k] {
		owners := 0
		for i, p := range ps {
			if p.done[name] {
				owners++
				verifrt.Assert(reach[i], "only a reachable server takes objects")
				verifrt.Assert(verifrt.EqBytes(p.got[name][:len(datas[name])], datas[name]), "an object arrives as it is")
			}
		}
		verifrt.Assert(owners <= 1, "an object goes to one server")
		got, ok := zzStored(name, len(datas[name]))
		if owners == 0 {
			left++
			verifrt.Assert(ok && verifrt.EqBytes(got, datas[name]), "an object nobody took stays")
		} else {
			verifrt.Assert(!ok, "an object that was taken is dropped")
		}
	}
	if resp.Success {
		verifrt.Assert(left == 0, "a server that left has handed over all objects")
		verifrt.Reach("left")
	}
	if k > 0 && live > 0 && !fail {
		verifrt.Assert(resp.Success, "a server leaves when all objects can be handed over")
		for i, p := range ps {
			sum, big := caps[i], int64(0)
			for _, b := range p.bytes {
				sum += b
				if b > big {
					big = b
				}
			}
			verifrt.Assert(len(p.bytes) == 0 || (sum-big)*int64(live) < total+int64(live), "no server takes more than its even share, but for the last object")
		}
	}
	verifrt.Assert(pool.ObjectCap.Capacity() == own || left < k, "the capacity changes with the objects only")
	verifrt.Reach("end")
}

// A server that joins asks each other server for what that one has above the even share, and nothing from the rest.
//
//gosym:harness C32 quick=60s thorough=600s
func VerifC32Join() {
	zzWorld()
	d := &zzDisc{self: "10.0.0.1:80"}
	pool.Discovery = d
	ms := NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	n := verifrt.Choice("servers", verifrt.Bound("other servers", 4, 5))
	caps, reach := make([]int64, n), make([]bool, n)
	live, total := int64(1), int64(0)
	unit := []int64{1, 4096, 1 << 52}[verifrt.Choice("unit", 3)]
	for i := range caps {
		caps[i] = []int64{0, 1, 2, 7}[verifrt.Choice("capacity", 4)] * unit
		reach[i] = i == 0 || i == n-1 || verifrt.Choice("reachable", 2) == 0
		if reach[i] {
			live++
			total += caps[i]
		}
	}
	pool.ObjectCap.AddCap(unit)
	verifrt.Drain()
	total += unit
	ps := zzCluster(d, n, caps, reach)
	d.peers = append(d.peers, d.self)
	fail := n > 0 && verifrt.Choice("failure", 2) == 1
	if fail {
		ps[0].failReq = true
	}
	pool.OnOpen(func() {})
	resp, err := ms.JoinCommand(context.Background(), &pb.EmptyReq{})
	verifrt.Drain()
	share := (total + live - 1) / live
	asked := false
	for i, p := range ps {
		extra := caps[i] - share
		if !reach[i] || extra <= 0 {
			verifrt.Assert(len(p.asked) == 0, "a server without more than its share is not asked")
			continue
		}
		asked = true
		verifrt.Assert(len(p.asked) == 1, "a server with more than its share is asked once")
		verifrt.Assert(p.asked[0].TargetAddress == d.self, "objects are asked for the joining server")
		diff := p.asked[0].RequiredSize - extra
		verifrt.Assert(diff == 0 || unit > 4096 && diff > -4 && diff < 4, "a server is asked for what it has above the share")
		verifrt.Reach("asked")
	}
	if err == nil && resp.Success {
		verifrt.Assert(asked && len(ps[0].asked) == 0 || !fail, "joining succeeds only if every asked server agreed")
	} else {
		verifrt.Assert(!asked || fail && len(ps[0].asked) == 1, "joining succeeds when every asked server agreed")
	}
	verifrt.Reach("end")
}
