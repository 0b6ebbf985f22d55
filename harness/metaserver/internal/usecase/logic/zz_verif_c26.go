package logic

import (
	"common/registry"
	"common/verifrt"
	"metaserver/internal/usecase/pool"
	"metaserver/internal/usecase/raftimpl"
	"time"
)

// A metadata server is registered in the role that raft gave it last.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:harness C26 quick=150s thorough=600s
func VerifC26Role() {
	e := registry.VerifNewEtcd()
	cfg := registry.Config{ServerIP: "10.0.0.1", ServerPort: "8080", Group: "g", Name: "meta", ServerID: "a"}
	pool.Registry = registry.NewEtcdRegistry(e.Client(), &cfg)
	pool.Lifecycle = registry.NewLifecycle(e.Client(), 10*time.Second)
	rw := raftimpl.VerifWrapper(true, false, "")
	pool.RaftWrapper = rw
	pool.Registry.AsSlave()
	pool.Lifecycle.Subscribe(pool.Registry.Register)
	verifrt.Schedules(verifrt.Bound("switches", 0, 1))
	go pool.Lifecycle.DeadLoop()
	if verifrt.Choice("leading before", 2) == 1 {
		rw.OnLeaderChanged(true)
	}
	rw.RegisterLeaderChangedEvent(NewRegistry())
	master := rw.IsLeader()
	n := verifrt.Choice("changes", verifrt.Bound("changes", 3, 4))
	for i := 0; i < n; i++ {
		master = !master
		rw.OnLeaderChanged(master)
		verifrt.Assert(rw.IsLeader() == master, "a server knows at once whether it leads")
		if verifrt.Choice("expires", 2) == 1 {
			e.Expire()
		}
	}
	verifrt.Drain()
	verifrt.EndSchedules()
	keys, vals := e.Keys()
	verifrt.Assert(len(keys) == 1 && vals[0] == "10.0.0.1:8080", "a server is registered once")
	want := "g/registry/meta/a_slave"
	if master {
		want = "g/registry/meta/a_master"
	}
	verifrt.Assert(keys[0] == want, "a server is registered in the role it has now")
	verifrt.Assert(e.Bound(want), "a registration lasts as long as the lease of the server")
	pool.Lifecycle.Close()
	verifrt.Drain()
	verifrt.Reach("role")
}
