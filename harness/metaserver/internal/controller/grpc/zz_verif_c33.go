package grpc

import (
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"common/verifrt"
	"metaserver/internal/entity"
	"metaserver/internal/usecase/pool"
	"strconv"
	"sync"
	"time"
)

// Operations on metadata, buckets and slots served at the same time share no unprotected state.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_c10.go
//gosym:harness C33 quick=90s thorough=600s
func VerifC33Meta() {
	kv := &zzKV{m: map[string]string{}}
	n := newZzNode("a", kv)
	n.own("0-9000")
	n.cfg.HashSlot.PrepareTimeout = time.Second
	pool.Config, pool.HashSlot, pool.RaftWrapper = n.cfg, n.slots, n.rw
	zzFill(n)
	verifrt.Drain()
	bt, err := util.EncodeMsgp(&msg.Metadata{Name: "z", Bucket: "b"})
	verifrt.Assert(err == nil, "a record is encoded")
	if verifrt.Choice("receiving", 2) == 1 {
		verifrt.Assert(n.hs.PrepareMigrationFrom(&pb.LocationInfo{Host: "b", Port: "1"}, []string{"9000-9100"}) == nil, "slots are received")
	}
	kinds := 11
	op := func(k, i int) {
		key := zzKeys[i%len(zzKeys)]
		switch k {
		case 0:
			n.meta.AddMetadata("b/x"+strconv.Itoa(i), &msg.Metadata{Name: "x", Bucket: "b"})
		case 1:
			n.meta.AddVersion(zzKeys[2], &msg.Version{Hash: "hh", Size: 5})
		case 2:
			n.meta.GetMetadata(zzKeys[2], -1, true)
		case 3:
			n.meta.ListVersions(zzKeys[2], 1, 5)
			n.meta.FindByHash("h" + key)
		case 4:
			n.meta.RemoveMetadata(zzKeys[2])
		case 5:
			n.buks.Create(&msg.Bucket{Name: "n" + strconv.Itoa(i)})
			n.buks.Get(zzKeys[2])
			n.buks.List("", 5)
		case 6:
			n.slots.GetEdgeProvider(true)
			n.slots.GetKeyIdentify(key)
		case 7:
			n.slots.GetMigrateTo()
			n.slots.GetMigrateFrom()
			n.slots.IsNormal()
		case 8:
			n.hs.PrepareMigrationFrom(&pb.LocationInfo{Host: "c", Port: "1"}, []string{"9000-9100"})
		case 9:
			n.hs.ReceiveItem(&pb.MigrationItem{Name: "b/z", Dest: int32(entity.DestMetadata), Data: bt})
			n.hs.FinishReceiveItem(false)
		case 10:
			if n.slots.ReadyMigrateTo("b", []string{"0-5"}) == nil {
				n.slots.FinishMigrateTo()
			}
		}
	}
	x, y := verifrt.Choice("first", kinds), verifrt.Choice("second", kinds)
	verifrt.Assume(x <= y)
	verifrt.Races()
	var wg sync.WaitGroup
	for i, k := range []int{x, y} {
		wg.Add(1)
		go func(i, k int) {
			defer wg.Done()
			op(k, i)
		}(i, k)
	}
	wg.Wait()
	verifrt.Drain()
	verifrt.Reach("served")
}
