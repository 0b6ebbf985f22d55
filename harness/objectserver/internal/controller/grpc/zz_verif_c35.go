package grpc

import (
	"common/proto/pb"
	"common/verifrt"
	"common/verifrt/fsm"
	"context"
	"errors"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"runtime"
	"strings"
	"syscall"
)

// Sending objects away and receiving them leaves no file and no connection open and no goroutine running, whatever fails.
//
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:with objectserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with objectserver/internal/controller/grpc/zz_verif_c32.go
//gosym:harness C35 quick=60s thorough=300s native=off
func VerifC35Objects() {
	zzWorld()
	d := &zzDisc{self: "10.0.0.1:80"}
	pool.Discovery = d
	ms := NewMigrationServer(service.NewMigrationService(pool.ObjectCap))
	names := []string{"g.0", "h.1"}
	k := 1 + verifrt.Choice("objects", 2)
	for i := 0; i < k; i++ {
		verifrt.Assert(service.Put(names[i], strings.NewReader(string(zzBytes(9000, i))), false) == nil, "an object is stored")
	}
	n := 1 + verifrt.Choice("servers", 2)
	ps := zzCluster(d, n, []int64{0, 4096}, []bool{true, true})
	kind := verifrt.Choice("fault", 6)
	for _, p := range ps {
		switch kind {
		case 1:
			p.failRecv = names[0]
		case 2:
			p.failFin = names[0]
		case 3:
			p.failReq = true
		}
	}
	verifrt.Drain()
	g, f := runtime.NumGoroutine(), fsm.OpenHandles
	switch kind {
	case 4:
		at := verifrt.Choice("read", 4)
		fsm.ReadFault = func(path string, off int64) error {
			at--
			if at == -1 {
				return syscall.EIO
			}
			return nil
		}
	case 5:
		at := fsm.Ops + 1 + verifrt.Choice("operation", verifrt.Bound("operations", 6, 10))
		fsm.Fault = func(op, path string) error {
			if fsm.Ops == at {
				return syscall.EIO
			}
			return nil
		}
	}
	ok := false
	switch verifrt.Choice("request", 4) {
	case 0:
		r, err := ms.LeaveCommand(context.Background(), &pb.EmptyReq{})
		ok = err == nil && r.Success
	case 1:
		r, err := ms.JoinCommand(context.Background(), &pb.EmptyReq{})
		ok = err == nil && r.Success
	case 2:
		r, err := ms.RequireSend(context.Background(), &pb.RequiredInfo{RequiredSize: 5000, TargetAddress: d.peers[0]})
		ok = err == nil && r.Success
	case 3:
		in := &zzIn{items: zzPieces("i.1", zzBytes(4096, 5), 4096, 3000)}
		switch verifrt.Choice("cut", 3) {
		case 1:
			in.items, in.err = in.items[:1], errors.New("connection lost")
		case 2:
			in.items = in.items[:1]
		}
		ok = zzSend(ms, in)
	}
	fsm.Fault, fsm.ReadFault = nil, nil
	verifrt.Drain()
	verifrt.Assert(len(zzConns) == 0, "no connection is left open")
	verifrt.Assert(fsm.OpenHandles == f, "no file is left open")
	verifrt.Assert(runtime.NumGoroutine() <= g, "no goroutine is left running")
	if ok {
		verifrt.Reach("done")
	} else {
		verifrt.Reach("failed")
	}
}
