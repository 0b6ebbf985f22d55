package grpc

import (
	"common/verifrt"
	"runtime"
)

// A migration leaves no connection open and no goroutine running on either server, whatever fails.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_c10.go
//gosym:harness C35 quick=60s thorough=300s native=off
func VerifC35Migrate() {
	kv := &zzKV{m: map[string]string{}}
	a, b := newZzNode("a", kv), newZzNode("b", kv)
	a.own("0-16384")
	b.own()
	zzFill(a)
	slots := []string{"0-16384"}
	loc := zzServe(b)
	verifrt.Drain()
	n := runtime.NumGoroutine()
	switch verifrt.Choice("fault", 6) {
	case 1:
		b.failItem = 1 + verifrt.Choice("item", 7)
	case 2:
		kv.failPut = 1 + verifrt.Choice("put", 2)
	case 3:
		verifrt.Assert(b.slots.ReadyMigrateFrom("other", []string{"0-1"}) == nil, "a server can be in another migration")
	case 4:
		slots = []string{"x"}
	case 5:
		verifrt.Assert(a.slots.ReadyMigrateTo("other", []string{"0-1"}) == nil, "a server can be in another migration")
	}
	ok := zzMigrate(a, loc, slots)
	verifrt.Advance(int64(60e9))
	verifrt.Drain()
	verifrt.Assert(zzConns == 0, "no connection is left open")
	verifrt.Assert(runtime.NumGoroutine() <= n, "no goroutine is left running")
	if ok {
		verifrt.Reach("moved")
	} else {
		verifrt.Reach("failed")
	}
}
