package grpc

import (
	"common/hashslot"
	"common/proto/pb"
	"common/registry"
	"common/util"
	"common/verifrt"
	_ "common/verifrt/jsonm"
	"context"
	"errors"
	"fmt"
	"metaserver/config"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"sort"
	"strings"
	"time"

	"github.com/hashicorp/raft"
	ggrpc "google.golang.org/grpc"
)

// zzCluster is a raft cluster: its members and what it refuses.
type zzCluster struct {
	leader  *zzMember
	servers []raft.Server
	changes int
	refuse  int // the change that fails, counted from 1
	booted  bool
}

// zzMember is a server with raft; cluster is the one it follows or leads.
type zzMember struct {
	*zzNode
	cluster *zzCluster
	cmds    pb.RaftCmdServer
}

var (
	zzMembers = map[*raft.Raft]*zzMember{}
	zzServers = map[string]*zzMember{} // by address, those that can be reached
)

type zzFuture struct {
	err error
	cfg raft.Configuration
}

func (f zzFuture) Error() error                      { return f.err }
func (f zzFuture) Index() uint64                     { return 1 }
func (f zzFuture) Configuration() raft.Configuration { return f.cfg }

// change applies a new list of members as raft would.
func (m *zzMember) change(servers []raft.Server) error {
	c := m.cluster
	if c == nil || c.leader != m {
		return raft.ErrNotLeader
	}
	if c.changes++; c.changes == c.refuse {
		return raft.ErrEnqueueTimeout
	}
	if err := zzValid(servers); err != nil {
		return err
	}
	c.servers = servers
	return nil
}

func zzValid(servers []raft.Server) error {
	ids, addrs, voters := map[raft.ServerID]bool{}, map[raft.ServerAddress]bool{}, 0
	for _, s := range servers {
		if s.ID == "" || s.Address == "" || ids[s.ID] || addrs[s.Address] {
			return errors.New("invalid configuration")
		}
		ids[s.ID], addrs[s.Address] = true, true
		if s.Suffrage == raft.Voter {
			voters++
		}
	}
	if voters == 0 {
		return errors.New("need at least one voter")
	}
	return nil
}

//gosym:model (*github.com/hashicorp/raft.Raft).AddVoter
func zzAddVoter(r *raft.Raft, id raft.ServerID, address raft.ServerAddress, prevIndex uint64, timeout time.Duration) raft.IndexFuture {
	m := zzMembers[r]
	var servers []raft.Server
	found := false
	if m.cluster != nil {
		for _, s := range m.cluster.servers {
			if s.ID == id {
				s.Address, s.Suffrage, found = address, raft.Voter, true
			}
			servers = append(servers, s)
		}
	}
	if !found {
		servers = append(servers, raft.Server{Suffrage: raft.Voter, ID: id, Address: address})
	}
	return zzFuture{err: m.change(servers)}
}

//gosym:model (*github.com/hashicorp/raft.Raft).RemoveServer
func zzRemoveServer(r *raft.Raft, id raft.ServerID, prevIndex uint64, timeout time.Duration) raft.IndexFuture {
	m := zzMembers[r]
	var servers []raft.Server
	if m.cluster != nil {
		for _, s := range m.cluster.servers {
			if s.ID != id {
				servers = append(servers, s)
			}
		}
	}
	return zzFuture{err: m.change(servers)}
}

//gosym:model (*github.com/hashicorp/raft.Raft).BootstrapCluster
func zzBootstrap(r *raft.Raft, cfg raft.Configuration) raft.Future {
	m := zzMembers[r]
	if m.cluster != nil {
		return zzFuture{err: raft.ErrCantBootstrap}
	}
	if err := zzValid(cfg.Servers); err != nil {
		return zzFuture{err: err}
	}
	m.cluster = &zzCluster{leader: m, servers: cfg.Servers}
	return zzFuture{}
}

//gosym:model (*github.com/hashicorp/raft.Raft).LeaderWithID
func zzLeaderWithID(r *raft.Raft) (raft.ServerAddress, raft.ServerID) {
	if c := zzMembers[r].cluster; c != nil && c.leader != nil {
		return raft.ServerAddress(c.leader.rw.Address), raft.ServerID(c.leader.id)
	}
	return "", ""
}

//gosym:model (*github.com/hashicorp/raft.Raft).GetConfiguration
func zzGetConfiguration(r *raft.Raft) raft.ConfigurationFuture {
	f := zzFuture{}
	if c := zzMembers[r].cluster; c != nil {
		f.cfg.Servers = c.servers
	}
	return f
}

// ---- commands of one server to another ----

//gosym:model common/proto/pb.NewRaftCmdClient
func zzRaftClient(cc ggrpc.ClientConnInterface) pb.RaftCmdClient {
	return &zzRaftCmds{m: zzServers[zzConnTo[cc.(*ggrpc.ClientConn)]]}
}

type zzRaftCmds struct {
	pb.RaftCmdClient
	m *zzMember
}

func (z *zzRaftCmds) on(fn func(pb.RaftCmdServer) (*pb.Response, error)) (r *pb.Response, err error) {
	if z.m == nil {
		return nil, errors.New("unreachable")
	}
	e := z.m.as(func() error { r, err = fn(z.m.cmds); return nil })
	verifrt.Assert(e == nil, "a command ends")
	if err != nil {
		return nil, err
	}
	return &pb.Response{Success: r.Success, Message: r.Message}, nil
}
func (z *zzRaftCmds) RemoveFollower(ctx context.Context, in *pb.RemoveFollowerReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return z.on(func(s pb.RaftCmdServer) (*pb.Response, error) { return s.RemoveFollower(ctx, in) })
}
func (z *zzRaftCmds) AddVoter(ctx context.Context, in *pb.AddVoterReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return z.on(func(s pb.RaftCmdServer) (*pb.Response, error) { return s.AddVoter(ctx, in) })
}
func (z *zzRaftCmds) Config(ctx context.Context, in *pb.EmptyReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return z.on(func(s pb.RaftCmdServer) (*pb.Response, error) { return s.Config(ctx, in) })
}
func (z *zzRaftCmds) JoinLeader(ctx context.Context, in *pb.JoinLeaderReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return z.on(func(s pb.RaftCmdServer) (*pb.Response, error) { return s.JoinLeader(ctx, in) })
}
func (z *zzRaftCmds) LeaveCluster(ctx context.Context, in *pb.EmptyReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return z.on(func(s pb.RaftCmdServer) (*pb.Response, error) { return s.LeaveCluster(ctx, in) })
}
func (z *zzRaftCmds) Bootstrap(ctx context.Context, in *pb.BootstrapReq, _ ...ggrpc.CallOption) (*pb.Response, error) {
	return z.on(func(s pb.RaftCmdServer) (*pb.Response, error) { return s.Bootstrap(ctx, in) })
}

func zzAddr(id string) string { return id + ".host:1" }

func newZzMember(id, group string, kv *zzKV) *zzMember {
	m := &zzMember{zzNode: newZzNode(id, kv)}
	m.rw = &raftimpl.RaftWrapper{Raft: &raft.Raft{}, ID: id, Address: zzAddr(id), Enabled: true}
	m.cfg.Cluster.Enable, m.cfg.Cluster.ID, m.cfg.Cluster.GroupID = true, id, group
	m.cfg.HashSlot.StoreID = group
	m.cmds = NewRaftCmdServer(m.rw)
	zzMembers[m.rw.Raft] = m
	zzServers[m.rw.Address] = m
	return m
}

// leads makes the server lead a cluster of itself and others.
func (m *zzMember) leads(others ...*zzMember) *zzCluster {
	c := &zzCluster{leader: m}
	m.cfg.Cluster.Nodes = nil
	for _, o := range append([]*zzMember{m}, others...) {
		o.cluster = c
		c.servers = append(c.servers, raft.Server{Suffrage: raft.Voter, ID: raft.ServerID(o.id), Address: raft.ServerAddress(o.rw.Address)})
		m.cfg.Cluster.Nodes = append(m.cfg.Cluster.Nodes, o.id+","+o.rw.Address)
	}
	config.VerifPersisted[m.cfg] = append([]string{}, m.cfg.Cluster.Nodes...)
	m.rw.OnLeaderChanged(true)
	return c
}

func (m *zzMember) client() pb.RaftCmdClient { return &zzRaftCmds{m: m} }

// zzListed are the members that raft has, and those of a configuration.
func zzListed(c *zzCluster) string {
	var r []string
	for _, s := range c.servers {
		r = append(r, string(s.ID)+","+string(s.Address))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func zzNodes(nodes []string) string {
	r := append([]string{}, nodes...)
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (m *zzMember) agrees() {
	verifrt.Assert(zzNodes(m.cfg.Cluster.Nodes) == zzListed(m.cluster), "the leader's configuration lists exactly the members of the cluster")
	verifrt.Assert(zzNodes(config.VerifPersisted[m.cfg]) == zzListed(m.cluster), "the persisted configuration lists exactly the members of the cluster")
}

// Servers are added, moved and removed by commands to the leader, some of which raft refuses.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:harness C36 quick=60s thorough=300s native=off
func VerifC36Members() {
	kv := &zzKV{m: map[string]string{}}
	a, b, d := newZzMember("a", "g", kv), newZzMember("a1", "g", kv), newZzMember("b", "g", kv)
	c := a.leads(b, d)
	want := map[string]string{"a": zzAddr("a"), "a1": zzAddr("a1"), "b": zzAddr("b")}
	ids := []string{"a1", "b", "c", "x", ""}
	for i := verifrt.Bound("commands", 2, 2); i > 0; i-- {
		c.changes = 0
		c.refuse = verifrt.Choice("refused", 3)
		if verifrt.Choice("command", 2) == 0 {
			req := &pb.AddVoterReq{}
			ok := true
			for j := 1 + verifrt.Choice("second", 2); j > 0; j-- {
				id, moved := "c", false
				if len(req.Voters) == 0 || verifrt.Thorough() {
					id, moved = ids[verifrt.Choice("id", len(ids))], verifrt.Choice("moved", 2) == 1
				}
				addr := zzAddr(id)
				if moved {
					addr = "moved." + addr
				}
				req.Voters = append(req.Voters, &pb.Voter{Id: id, Address: addr})
				if id == "" || len(req.Voters) == c.refuse {
					ok = false
				} else {
					want[id] = addr
				}
			}
			r, err := a.client().AddVoter(context.Background(), req)
			verifrt.Assert(err == nil && r.Success == ok, "adding succeeds exactly if raft takes all servers")
			verifrt.Reach("added")
		} else {
			id := ids[verifrt.Choice("id", len(ids))]
			r, err := a.client().RemoveFollower(context.Background(), &pb.RemoveFollowerReq{FollowerId: id})
			ok := c.refuse != 1
			verifrt.Assert((err == nil && r.Success) == ok, "removing succeeds exactly if raft does")
			if ok {
				delete(want, id)
			}
			verifrt.Reach("removed")
		}
		var w []string
		for id, addr := range want {
			w = append(w, id+","+addr)
		}
		verifrt.Assert(zzNodes(w) == zzListed(c), "the cluster has exactly the servers that were added and not removed")
		a.agrees()
	}
}

// Bootstrap starts a cluster of exactly the servers of the request, else of those configured, else of the server alone.
//
//gosym:harness C36 quick=60s thorough=300s native=off
func VerifC36Bootstrap() {
	kv := &zzKV{m: map[string]string{}}
	a := newZzMember("a", "g", kv)
	req := &pb.BootstrapReq{}
	var want []string
	bad := false
	n := verifrt.Choice("nodes", 4)
	asked := verifrt.Choice("asked", 2) == 1
	for i := 0; i < n; i++ {
		id := []string{"a", "b", "c"}[i]
		switch k := verifrt.Choice("node", 4); {
		case k == 0 || k == 1:
			addr := zzAddr(id)
			if k == 1 {
				addr = zzAddr("a")
			}
			for _, w := range want {
				bad = bad || strings.HasSuffix(w, ","+addr)
			}
			want = append(want, id+","+addr)
			if asked {
				req.Services = append(req.Services, &pb.RaftServerItem{Id: id, Address: addr})
			} else {
				a.cfg.Cluster.Nodes = append(a.cfg.Cluster.Nodes, id+","+addr)
			}
		case asked:
			req.Services = append(req.Services, &pb.RaftServerItem{Id: id})
			bad = true
		case k == 2:
			a.cfg.Cluster.Nodes = append(a.cfg.Cluster.Nodes, id)
		default:
			a.cfg.Cluster.Nodes = append(a.cfg.Cluster.Nodes, id+","+zzAddr(id)+",9")
		}
	}
	if n == 0 {
		want = []string{"a," + util.ServerAddress(a.cfg.Port)}
	}
	r, err := a.client().Bootstrap(context.Background(), req)
	verifrt.Assert(err == nil && r.Success == (!bad && len(want) > 0), "a cluster starts exactly if its servers are valid")
	if !r.Success {
		verifrt.Assert(a.cluster == nil, "no cluster starts")
		return
	}
	verifrt.Assert(zzNodes(want) == zzListed(a.cluster), "the cluster has exactly the servers given")
	for _, s := range a.cluster.servers {
		verifrt.Assert(s.Suffrage == raft.Voter, "the servers vote")
	}
	r, err = a.client().Bootstrap(context.Background(), req)
	verifrt.Assert(err == nil && !r.Success && zzNodes(want) == zzListed(a.cluster), "a cluster starts once")
	verifrt.Reach("started")
}

// A server that joins a leader is listed there and takes its group and slots over, and one that leaves is not listed anymore.
//
//gosym:harness C36 quick=60s thorough=300s native=off
func VerifC36Join() {
	kv := &zzKV{m: map[string]string{}}
	a, o, b := newZzMember("a", "g", kv), newZzMember("o", "g", kv), newZzMember("b", "h", kv)
	c := a.leads(o)
	pool.Registry = nil
	zzMasters = map[string]string{"a": a.rw.Address}
	verifrt.Assert(a.slots.Save("g", &hashslot.SlotInfo{GroupID: "g", ServerID: "a", Slots: []string{"5-10"}}) == nil, "saving slots succeeds")
	member := verifrt.Choice("member", 2) == 1
	if member { // already
		c = a.leads(o, b)
	}
	to := "a"
	ok := true
	switch verifrt.Choice("fault", 4) {
	case 1:
		to, ok = "x", false
	case 2:
		delete(zzServers, a.rw.Address)
		ok = false
	case 3:
		c.refuse = 1
		ok = member
	}
	r, err := b.client().JoinLeader(context.Background(), &pb.JoinLeaderReq{MasterId: to})
	verifrt.Assert((err == nil && r.Success) == ok, "joining succeeds exactly if the leader takes the server")
	a.agrees()
	listed := strings.Contains(zzListed(c), "b,"+zzAddr("b"))
	verifrt.Assert(listed == (ok || member), "the leader has the server exactly if it joined")
	if !ok {
		verifrt.Reach("not joined")
		return
	}
	b.cluster = c
	verifrt.Assert(zzNodes(b.cfg.Cluster.Nodes) == zzListed(c) && zzNodes(config.VerifPersisted[b.cfg]) == zzListed(c), "a server that joined knows the members")
	verifrt.Assert(b.cfg.Cluster.GroupID == "g" && b.cfg.HashSlot.StoreID == "g", "a server that joined belongs to the group")
	verifrt.Assert(fmt.Sprint(b.cfg.HashSlot.Slots) == "[5-10]", "a server that joined has the slots of the group")
	c.changes, c.refuse = 0, verifrt.Choice("refused", 2)
	r, err = b.client().LeaveCluster(context.Background(), &pb.EmptyReq{})
	verifrt.Assert((err == nil && r.Success) == (c.refuse == 0), "leaving succeeds exactly if raft lets the server go")
	verifrt.Assert(strings.Contains(zzListed(c), "b,") == (c.refuse == 1), "a server that left is no member")
	a.agrees()
	verifrt.Reach("joined")
}

var zzMasters map[string]string

//gosym:model (*common/registry.EtcdRegistry).GetServiceMapping
func zzMapping(e *registry.EtcdRegistry, name string) map[string]string { return zzMasters }
