package controller

import (
	"adminserver/config"
	"adminserver/internal/usecase/pool"
	"common/proto/pb"
	"common/registry"
	"common/verifrt"
	"common/verifrt/ginm"
	"common/verifrt/httpm"
	_ "common/verifrt/jsonm"
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"

	"github.com/gin-contrib/cors"
	"github.com/gin-contrib/sessions"
	"github.com/gin-contrib/sessions/cookie"
	"github.com/gin-gonic/gin"
	ggrpc "google.golang.org/grpc"
)

// zzSession is a session of a browser.
type zzSession struct {
	sessions.Session
	m map[interface{}]interface{}
}

func (z *zzSession) Get(k interface{}) interface{} { return z.m[k] }
func (z *zzSession) Set(k, v interface{})          { z.m[k] = v }
func (z *zzSession) Clear()                        { z.m = map[interface{}]interface{}{} }
func (z *zzSession) Save() error                   { return nil }

// zzFiles are the files of the web pages: none.
type zzFiles struct{ http.FileSystem }

func (zzFiles) Exists(prefix, path string) bool { return false }

//gosym:model github.com/gin-contrib/sessions.Sessions
func zzSessions(name string, store sessions.Store) gin.HandlerFunc {
	return func(c *gin.Context) { c.Set(sessions.DefaultKey, &zzSession{m: map[interface{}]interface{}{}}) }
}

//gosym:model github.com/gin-contrib/sessions/cookie.NewStore
func zzStore(keys ...[]byte) cookie.Store { return nil }

//gosym:model github.com/gin-contrib/cors.New
func zzCors(config cors.Config) gin.HandlerFunc { return func(c *gin.Context) {} }

//gosym:model github.com/gin-gonic/gin.Logger
func zzLog() gin.HandlerFunc { return func(c *gin.Context) {} }

// zzBody is the body of an answer.
type zzBody struct {
	data   []byte
	fail   bool // breaks at the end
	closed int
}

func (b *zzBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	if len(b.data) == 0 {
		if b.fail {
			return 0, io.ErrUnexpectedEOF
		}
		return 0, io.EOF
	}
	n := copy(p, b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *zzBody) Close() error { b.closed++; return nil }

type zzConsole struct {
	h      http.Handler
	etcd   *registry.VerifEtcd
	serve  func(*http.Request) *http.Response // nil: the server is away
	bodies []*zzBody
	open   bool // requests go on meanwhile
}

func (z *zzConsole) answer(code int, head map[string]string, b []byte, fail bool) *http.Response {
	r := httpm.Response(code, head, nil)
	body := &zzBody{data: b, fail: fail}
	if !z.open {
		z.bodies = append(z.bodies, body)
	}
	r.Body, r.ContentLength = body, int64(len(b))
	return r
}

// zzNew makes a console of a cluster: name of service -> id of server -> address.
func zzNew(services map[string]map[string]string) *zzConsole {
	z := &zzConsole{etcd: registry.VerifNewEtcd()}
	pool.Config = &config.Config{}
	d := &pool.Config.Discovery
	d.Group, d.ApiServName, d.MetaServName, d.DataServName = "g", "api", "meta", "data"
	pool.Etcd = z.etcd.Client()
	pool.Discovery = registry.VerifDiscovery(services)
	pool.Http = &http.Client{Transport: httpm.Transport(func(r *http.Request) (*http.Response, error) {
		if r.Body != nil {
			defer r.Body.Close()
		}
		res := z.serve(r)
		if res == nil {
			return nil, errors.New("connection refused")
		}
		res.Request = r
		return res, nil
	})}
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter, gin.DefaultErrorWriter = io.Discard, io.Discard
	z.h = NewHttpServer("80", zzFiles{}).Handler
	return z
}

// do sends a request of the web console.
func (z *zzConsole) do(method, path, query string, body io.Reader) *ginm.Writer {
	w := ginm.Do(z.h, method, "/api"+path, query, map[string]string{"Authorization": "Basic tok"}, body, 0)
	for _, b := range z.bodies {
		verifrt.Assert(b.closed > 0, "the body of every answer is closed")
	}
	return w
}

// ---- the RPC network: gRPC over the loopback interface in the native run ----

type zzPeer struct {
	pb.UnimplementedHashSlotServer
	pb.UnimplementedRaftCmdServer
	pb.UnimplementedObjectMigrationServer
	pb.UnimplementedMetadataApiServer
	pb.UnimplementedConfigServiceServer
	addr  string
	ok    bool  // commands succeed
	err   error // requests fail
	peers []string
	calls []string
}

func (p *zzPeer) cmd(s string) (*pb.Response, error) {
	p.calls = append(p.calls, s)
	if p.err != nil {
		return nil, p.err
	}
	return &pb.Response{Success: p.ok, Message: "msg"}, nil
}

func (p *zzPeer) StartMigration(_ context.Context, r *pb.MigrationReq) (*pb.Response, error) {
	return p.cmd("migrate " + strings.Join(r.Slots, ",") + " " + net.JoinHostPort(r.TargetLocation.Host, r.TargetLocation.Port))
}
func (p *zzPeer) JoinLeader(_ context.Context, r *pb.JoinLeaderReq) (*pb.Response, error) {
	return p.cmd("joinLeader " + r.MasterId)
}
func (p *zzPeer) LeaveCluster(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return p.cmd("leaveCluster")
}
func (p *zzPeer) JoinCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) { return p.cmd("join") }
func (p *zzPeer) LeaveCommand(context.Context, *pb.EmptyReq) (*pb.Response, error) {
	return p.cmd("leave")
}
func (p *zzPeer) GetPeers(context.Context, *pb.Empty) (*pb.Strings, error) {
	if _, err := p.cmd("peers"); err != nil {
		return nil, err
	}
	return &pb.Strings{Data: append([]string(nil), p.peers...)}, nil
}
func (p *zzPeer) GetConfig(context.Context, *pb.EmptyReq) (*pb.ConfigResp, error) {
	if _, err := p.cmd("config"); err != nil {
		return nil, err
	}
	return &pb.ConfigResp{YamlEncode: []byte("of " + p.addr)}, nil
}

var (
	zzPeers = map[string]*zzPeer{}
	zzConns = map[*ggrpc.ClientConn]string{}
	zzOpen  int
)

func zzListen(n int) *zzPeer {
	p := &zzPeer{addr: "10.0.0." + strconv.Itoa(n) + ":80"}
	if !verifrt.Symbolic() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		verifrt.Assert(err == nil, "listening succeeds")
		s := ggrpc.NewServer()
		pb.RegisterHashSlotServer(s, p)
		pb.RegisterRaftCmdServer(s, p)
		pb.RegisterObjectMigrationServer(s, p)
		pb.RegisterMetadataApiServer(s, p)
		pb.RegisterConfigServiceServer(s, p)
		go s.Serve(l)
		p.addr = l.Addr().String()
	}
	zzPeers[p.addr] = p
	return p
}

//gosym:model google.golang.org/grpc.Dial
func zzDial(target string, opts ...ggrpc.DialOption) (*ggrpc.ClientConn, error) {
	c := &ggrpc.ClientConn{}
	zzConns[c] = target
	zzOpen++
	return c, nil
}

//gosym:model google.golang.org/grpc.WithInsecure
func zzInsecure() ggrpc.DialOption { return ggrpc.EmptyDialOption{} }

//gosym:model (*google.golang.org/grpc.ClientConn).Close
func zzCloseConn(c *ggrpc.ClientConn) error { zzOpen--; return nil }

//gosym:model (*google.golang.org/grpc.ClientConn).Invoke
func zzInvoke(c *ggrpc.ClientConn, ctx context.Context, method string, args, reply interface{}, opts ...ggrpc.CallOption) error {
	p := zzPeers[zzConns[c]]
	if p == nil {
		return errors.New("connection refused")
	}
	var r *pb.Response
	var err error
	switch method[strings.LastIndexByte(method, '/')+1:] {
	case "StartMigration":
		r, err = p.StartMigration(ctx, args.(*pb.MigrationReq))
	case "JoinLeader":
		r, err = p.JoinLeader(ctx, args.(*pb.JoinLeaderReq))
	case "LeaveCluster":
		r, err = p.LeaveCluster(ctx, args.(*pb.EmptyReq))
	case "JoinCommand":
		r, err = p.JoinCommand(ctx, args.(*pb.EmptyReq))
	case "LeaveCommand":
		r, err = p.LeaveCommand(ctx, args.(*pb.EmptyReq))
	case "GetPeers":
		s, err := p.GetPeers(ctx, args.(*pb.Empty))
		if err == nil {
			reply.(*pb.Strings).Data = s.Data
		}
		return err
	case "GetConfig":
		s, err := p.GetConfig(ctx, args.(*pb.EmptyReq))
		if err == nil {
			reply.(*pb.ConfigResp).YamlEncode = s.YamlEncode
		}
		return err
	default:
		panic("verifrt: " + method)
	}
	if err == nil {
		o := reply.(*pb.Response)
		o.Success, o.Message = r.Success, r.Message
	}
	return err
}
