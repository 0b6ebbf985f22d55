package registry

import (
	"common/verifrt"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
)

// zzRegistered checks that the server is registered once, under the key of its role and a lease that is alive.
func zzRegistered(e *VerifEtcd, key, addr string) {
	keys, vals := e.Keys()
	verifrt.Assert(e.LeasesAlive() == 1, "a server keeps exactly one lease")
	verifrt.Assert(len(keys) == 1 && keys[0] == key && vals[0] == addr, "a server is registered once, in its role")
	verifrt.Assert(e.Bound(key), "a registration lasts as long as the lease of the server")
}

// A server stays registered in its role while etcd fails, leases expire and its role changes.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C26 quick=150s thorough=900s
func VerifC26Lease() {
	e := VerifNewEtcd()
	cfg := Config{ServerIP: "10.0.0.1", ServerPort: "8080", Group: "g", Name: "meta", ServerID: verifrt.AnyString("id", 2)}
	verifrt.Assume(cfg.ServerID[0] != '/' && cfg.ServerID[1] != '/')
	reg := NewEtcdRegistry(e.Client(), &cfg)
	role := func(k int) *EtcdRegistry {
		if k == 0 {
			return reg.AsSlave()
		}
		return reg.AsMaster()
	}
	lc := NewLifecycle(e.Client(), 10*time.Second)
	var told clientv3.LeaseID
	lc.Subscribe(reg.Register)
	lc.Subscribe(func(id clientv3.LeaseID) { told = id })
	fault := verifrt.Choice("fault", 3) // 1: no lease, 2: a lease is not kept
	if fault == 1 {
		e.GrantErrs = 1
	}
	if fault == 2 {
		e.AliveErrs = 1
	}
	k := verifrt.Choice("role", 2)
	role(k)
	over := make(chan struct{})
	changes := verifrt.Bound("changes", 1, 2)
	verifrt.Schedules(verifrt.Bound("switches", 1, 2))
	go func() {
		lc.DeadLoop()
		close(over)
	}()
	for i := 0; i < changes; i++ {
		switch verifrt.Choice("then", 5) {
		case 0:
			e.Expire()
		case 1:
			e.Lose()
		case 2:
			k = 1 - k
			verifrt.Assert(reg.Unregister() == nil, "a server unregisters")
			reg := role(k)
			reg.Renew()
		case 3:
			e.Lose()
			k = 1 - k
			verifrt.Assert(reg.Unregister() == nil, "a server unregisters")
			reg := role(k)
			reg.Renew()
		}
	}
	verifrt.Drain()
	verifrt.EndSchedules()
	if fault > 0 {
		verifrt.Advance(int64(5500 * time.Millisecond))
		verifrt.Drain()
	}
	e.Forget()
	verifrt.Drain()
	zzRegistered(e, reg.Key(), "10.0.0.1:8080")
	verifrt.Assert(told == lc.Lease(), "who subscribes knows the lease")
	want := "_slave"
	if k == 1 {
		want = "_master"
	}
	verifrt.Assert(reg.Key() == "g/registry/meta/"+cfg.ServerID+want, "the key names the server and its role")
	lc.Close()
	<-over
	verifrt.Drain()
	keys, _ := e.Keys()
	verifrt.Assert(e.LeasesAlive() == 0 && len(keys) == 0, "nothing is left registered after closing")
	verifrt.Reach("registered")
}

// A server that is closed while it has no lease stops asking for one.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C26 quick=30s thorough=120s
func VerifC26Close() {
	e := VerifNewEtcd()
	cfg := Config{ServerIP: "10.0.0.1", ServerPort: "8080", Group: "g", Name: "meta", ServerID: "a"}
	reg := NewEtcdRegistry(e.Client(), &cfg)
	lc := NewLifecycle(e.Client(), 10*time.Second)
	lc.Subscribe(reg.Register)
	if verifrt.Choice("fault", 2) == 1 {
		e.GrantErrs = 3
	} else {
		e.AliveErrs = 3
	}
	over := make(chan struct{})
	verifrt.Schedules(2)
	go func() {
		lc.DeadLoop()
		close(over)
	}()
	lc.Lease()
	if verifrt.Choice("soon", 2) == 0 {
		verifrt.Drain()
	}
	lc.Lease()
	lc.Close()
	<-over
	verifrt.Drain()
	verifrt.EndSchedules()
	verifrt.Assert(e.LeasesAlive() == 0, "no lease is left after closing")
	verifrt.Reach("closed")
}
