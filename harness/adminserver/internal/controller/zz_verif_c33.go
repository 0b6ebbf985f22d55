package controller

import (
	"adminserver/internal/usecase/db"
	"adminserver/internal/usecase/pool"
	"common/cst"
	"common/system"
	"common/util"
	"common/verifrt"
	"context"
	"net/http"
	"sync"
)

// Requests of the console served at the same time share no unprotected state, samples being saved meanwhile.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with adminserver/internal/controller/zz_verif_c30stat.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C33 quick=60s thorough=600s
func VerifC33Admin() {
	p := []*zzPeer{zzListen(1), zzListen(2)}
	p[0].ok, p[1].ok = true, true
	z := zzNew(map[string]map[string]string{"meta": {"m0_master": p[0].addr, "m1_slave": p[1].addr}, "data": {"d0": p[1].addr}, "api": {"a0": "10.0.0.1:80"}})
	var mu sync.Mutex
	z.serve = func(r *http.Request) *http.Response {
		mu.Lock()
		defer mu.Unlock()
		return z.answer(200, nil, []byte("[]"), false)
	}
	z.open = true
	pool.StatDB = db.NewServerStatDB(db.ServerStatCli{Watcher: pool.Etcd, KV: pool.Etcd}, "g", []string{"data", "meta", "api"})
	put := func() {
		b, err := util.EncodeMsgp(system.ZeroInfo())
		verifrt.Assert(err == nil, "a sample is encoded")
		z.etcd.Put(context.Background(), cst.EtcdPrefix.FmtSystemInfo("g", "data", "d0"), string(b))
	}
	put()
	verifrt.Drain()
	op := func(k int) {
		switch k {
		case 0:
			z.do("GET", "/server/cpu/timeline", "server=2", nil)
		case 1:
			z.do("GET", "/server/stat", "", nil)
		case 2:
			z.do("GET", "/server/config", "serverId=m0", nil)
		case 3:
			z.do("POST", "/objects/join/d0", "", nil)
		case 4:
			z.do("GET", "/objects/download/a", "bucket=b", nil)
		case 5:
			put()
		}
	}
	verifrt.Races()
	var wg sync.WaitGroup
	wg.Add(2)
	for i := 0; i < 2; i++ {
		k := verifrt.Choice("request", 6)
		go func() {
			defer wg.Done()
			op(k)
		}()
	}
	wg.Wait()
	verifrt.Drain()
}
