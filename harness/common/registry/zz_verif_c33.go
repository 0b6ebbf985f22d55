package registry

import (
	"common/verifrt"
	"sync"
	"time"
)

// Discovery, registration and the lease are used by several goroutines without a race.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C33 quick=90s thorough=600s
func VerifC33Registry() {
	e := VerifNewEtcd()
	verifrt.Races()
	cfg := func(id, ip string) *Config {
		return &Config{ServerIP: ip, ServerPort: "80", Group: "g", Name: "meta", ServerID: id, Services: []string{"meta"}}
	}
	reg, other := NewEtcdRegistry(e.Client(), cfg("a", "10.0.0.1")), NewEtcdRegistry(e.Client(), cfg("b", "10.0.0.2"))
	lc := NewLifecycle(e.Client(), 10*time.Second)
	reg.AsSlave()
	lc.Subscribe(reg.Register)
	over := make(chan struct{})
	go func() {
		lc.DeadLoop()
		close(over)
	}()
	d := NewEtcdDiscovery(e.Client(), cfg("a", "10.0.0.1"))
	kinds := 7
	op := func(k int) {
		switch k {
		case 0:
			d.GetServices("meta")
			d.GetServiceCount("meta")
		case 1:
			d.GetServiceMappingWith("meta", true)
			d.GetService("meta", "b")
		case 2:
			other.AsMaster().Register(0)
		case 3:
			other.Unregister()
		case 4:
			reg.AsMaster()
			reg.Renew()
			reg.Key()
		case 5:
			e.Expire()
		case 6:
			lc.Lease()
			lc.Subscribe(other.Register)
		}
	}
	if verifrt.Choice("settled", 2) == 1 {
		verifrt.Drain()
	}
	x, y, z := verifrt.Choice("first", kinds), verifrt.Choice("second", kinds), verifrt.Choice("third", 3)
	verifrt.Assume(x <= y)
	var wg sync.WaitGroup
	for _, k := range []int{x, y, z} {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			op(k)
		}(k)
	}
	wg.Wait()
	verifrt.Drain()
	d.Close()
	lc.Close()
	<-over
	verifrt.Drain()
	verifrt.Reach("used")
}
