package grpc

import (
	"bytes"
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"common/verifrt"
	"context"
	"fmt"
	"metaserver/internal/entity"
	"sort"
	"strings"
	"time"
)

// zzRecord is everything a server holds of a key.
type zzRecord struct {
	meta, bucket []byte
	versions     [][]byte
}

func zzRead(n *zzNode, key string) (r zzRecord) {
	r.meta, _ = n.meta.GetMetadataBytes(key)
	r.bucket, _ = n.buks.GetBytes(key)
	n.meta.ForeachVersionBytes(key, func(b []byte) bool {
		r.versions = append(r.versions, append([]byte{}, b...))
		return true
	})
	return
}

func (r zzRecord) empty() bool { return len(r.meta)+len(r.bucket)+len(r.versions) == 0 }

func (r zzRecord) same(o zzRecord) bool {
	if len(r.versions) != len(o.versions) {
		return false
	}
	ok := verifrt.And(bytes.Equal(r.meta, o.meta), bytes.Equal(r.bucket, o.bucket))
	for i := range r.versions {
		ok = verifrt.And(ok, bytes.Equal(r.versions[i], o.versions[i]))
	}
	return ok
}

func zzFill(n *zzNode) {
	for i, k := range zzKeys {
		verifrt.Assert(n.meta.AddMetadata(k, &msg.Metadata{Name: k[2:], Bucket: "b"}) == nil, "adding an object succeeds")
		for v := i; v > 0; v-- {
			_, err := n.meta.AddVersion(k, &msg.Version{Hash: "h" + k, Size: int64(verifrt.Int("size", 1, 100)), Locate: []string{verifrt.AnyString("locate", 1)}})
			verifrt.Assert(err == nil, "adding a version succeeds")
		}
		if i != 1 {
			verifrt.Assert(n.buks.Create(&msg.Bucket{Name: k, Versioning: true}) == nil, "adding a bucket succeeds")
		}
	}
	verifrt.Assert(n.meta.RemoveVersion(zzKeys[2], 1) == nil, "removing a version succeeds")
	verifrt.Advance(5000000)
}

// zzMoves are slot sets to move and the keys in them.
func zzMove() ([]string, []bool) {
	switch verifrt.Choice("slots", 6) {
	case 0:
		return []string{zzRange(0, 0)}, []bool{true, false, false}
	case 1:
		return []string{zzRange(1, 2)}, []bool{false, true, true}
	case 2:
		return []string{zzRange(2, 2), zzRange(0, 0)}, []bool{true, false, true}
	case 3: // between two keys, neither of which is inside
		return []string{fmt.Sprintf("%d-%d", zzSlotOf(zzKeys[0])+1, zzSlotOf(zzKeys[1]))}, []bool{false, false, false}
	case 4:
		return []string{fmt.Sprintf("%d-%d", zzSlotOf(zzKeys[0])+1, zzSlotOf(zzKeys[2]))}, []bool{false, true, false}
	}
	return []string{"0-100"}, []bool{zzSlotOf(zzKeys[0]) < 100, zzSlotOf(zzKeys[1]) < 100, zzSlotOf(zzKeys[2]) < 100}
}

func zzMigrate(from *zzNode, to *pb.LocationInfo, slots []string) bool {
	var resp *pb.Response
	err := from.as(func() (err error) {
		resp, err = NewHashSlotServer(from).StartMigration(context.Background(), &pb.MigrationReq{TargetLocation: to, Slots: slots})
		return
	})
	verifrt.Assert(err == nil && resp != nil, "a migration always answers")
	return resp.Success
}

func zzOwner(n *zzNode, key string) string {
	id, err := n.slots.GetKeyIdentify(key)
	if err != nil {
		return ""
	}
	return id
}

// Moving any slots moves exactly their objects, versions and buckets, unchanged, and afterwards both
// servers name the same owner of every key. Moving them back restores the first server.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:harness C10 quick=60s thorough=300s
func VerifC10Move() {
	kv := &zzKV{m: map[string]string{}}
	a, b := newZzNode("a", kv), newZzNode("b", kv)
	a.own("0-16384")
	if verifrt.Choice("target", 2) == 1 {
		top := zzSlotOf(zzKeys[2]) + 1
		a.own(fmt.Sprintf("0-%d", top))
		b.own(fmt.Sprintf("%d-16384", top))
	} else {
		b.own()
	}
	zzFill(a)
	for _, k := range zzKeys {
		verifrt.Assert(zzOwner(a, k) == "a" && zzOwner(b, k) == "a", "the first server owns every key")
	}
	var before []zzRecord
	for _, k := range zzKeys {
		before = append(before, zzRead(a, k))
	}
	slots, in := zzMove()
	loc := zzServe(b)
	verifrt.Assert(zzMigrate(a, loc, slots), "a migration without faults succeeds")
	verifrt.Drain()
	for i, k := range zzKeys {
		src, dst := zzRead(a, k), zzRead(b, k)
		if in[i] {
			verifrt.Assert(dst.same(before[i]), "everything of a moved key arrives unchanged")
			verifrt.Assert(src.empty(), "nothing of a moved key stays behind")
			verifrt.Assert(zzOwner(a, k) == "b" && zzOwner(b, k) == "b", "both servers name the new owner of a moved key")
			vs, err := b.meta.FindByHash("h" + k)
			verifrt.Assert(err == nil && len(vs) == len(dst.versions), "the versions of a moved key are found by hash")
			verifrt.Reach("moved")
		} else {
			verifrt.Assert(src.same(before[i]), "a key of other slots stays unchanged")
			verifrt.Assert(dst.empty(), "a key of other slots is not copied")
			verifrt.Assert(zzOwner(a, k) == "a" && zzOwner(b, k) == "a", "both servers name the old owner of other keys")
		}
	}
	verifrt.Assert(a.slots.IsNormal() && b.slots.IsNormal(), "both servers take writes again")
	if verifrt.Choice("back", 2) == 1 {
		loc = zzServe(a)
		verifrt.Assert(zzMigrate(b, loc, slots), "moving slots back succeeds")
		for i, k := range zzKeys {
			verifrt.Assert(zzRead(a, k).same(before[i]), "moving slots back restores everything")
			verifrt.Assert(zzRead(b, k).empty(), "nothing stays behind when moved back")
			verifrt.Assert(zzOwner(a, k) == "a" && zzOwner(b, k) == "a", "both servers name the first owner again")
		}
		verifrt.Reach("back")
	}
}

// Whatever fails, nothing is lost: the first server keeps every record, and its slots unless only the very last
// step failed; both servers take writes again and a second try moves everything as it is then.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:harness C10 quick=60s thorough=300s
func VerifC10Fault() {
	kv := &zzKV{m: map[string]string{}}
	a, b := newZzNode("a", kv), newZzNode("b", kv)
	a.own("0-16384")
	b.own()
	zzFill(a)
	var before []zzRecord
	for _, k := range zzKeys {
		before = append(before, zzRead(a, k))
	}
	etcd := zzSlots(kv)
	slots, _ := zzMove()
	all := zzRange(0, 2)
	if len(slots) != 1 || slots[0] != "0-100" {
		slots = []string{all}
	}
	loc := zzServe(b)
	fault := verifrt.Choice("fault", 5)
	switch fault {
	case 0:
		b.failItem = 1 + verifrt.Choice("item", 7)
		verifrt.Assume(len(slots[0]) > 5)
	case 1:
		kv.failPut = 1
	case 2:
		kv.failPut = 2
	case 3:
		verifrt.Assert(b.slots.ReadyMigrateFrom("other", []string{"0-1"}) == nil, "a server can be in another migration")
	case 4:
		b.own("0-1")
		a.own("1-16384")
		etcd = zzSlots(kv)
		slots = []string{"0-16384"}
	}
	verifrt.Assert(!zzMigrate(a, loc, slots), "a migration with a fault is reported as failed")
	verifrt.Drain()
	kv.failPut = 0
	for i, k := range zzKeys {
		verifrt.Assert(zzRead(a, k).same(before[i]), "a failed migration loses nothing")
	}
	verifrt.Assert(a.slots.IsNormal(), "the first server takes writes again after a failed migration")
	verifrt.Assert(b.slots.IsNormal() == (fault != 3), "the second server takes writes again after a failed migration")
	if fault == 2 {
		return
	}
	now := zzSlots(kv)
	verifrt.Assert(len(now) == len(etcd) && now == etcd, "a failed migration leaves the owners as they were")
	if fault == 3 {
		verifrt.Assert(b.slots.FinishMigrateFrom() == nil, "the other migration ends")
	}
	if fault == 4 {
		return
	}
	// the objects change before the second try
	switch verifrt.Choice("change", 4) {
	case 1:
		verifrt.Assert(a.meta.RemoveVersion(zzKeys[2], 2) == nil, "removing a version succeeds")
	case 2:
		verifrt.Advance(2000000)
		verifrt.Assert(a.meta.UpdateMetadata(zzKeys[1], &msg.Metadata{Name: "new"}) == nil, "updating succeeds")
	case 3:
		verifrt.Assert(a.buks.Remove(zzKeys[0]) == nil, "removing a bucket succeeds")
		verifrt.Assert(a.meta.RemoveMetadata(zzKeys[1]) == nil, "removing an object succeeds")
	}
	for i, k := range zzKeys {
		before[i] = zzRead(a, k)
	}
	verifrt.Assert(zzMigrate(a, loc, []string{all}), "a second try succeeds")
	for i, k := range zzKeys {
		verifrt.Assert(zzRead(b, k).same(before[i]), "a second try moves everything as it is then")
		verifrt.Assert(zzRead(a, k).empty(), "nothing stays behind after a second try")
	}
	verifrt.Reach("retried")
}

// A prepared migration that never starts is given up after the timeout, one that starts is not.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:harness C10 quick=60s thorough=100s
func VerifC10Timeout() {
	kv := &zzKV{m: map[string]string{}}
	a, b := newZzNode("a", kv), newZzNode("b", kv)
	a.own("0-16384")
	b.own()
	b.cfg.HashSlot.PrepareTimeout = 1500 * time.Millisecond
	loc := &pb.LocationInfo{Host: "a", Port: "1"}
	verifrt.Assert(b.PrepareMigrationFrom(loc, []string{"0-10"}) == nil, "a server that does not own the slots accepts to receive them")
	verifrt.Assert(!b.slots.IsNormal(), "a server that waits for a migration takes no writes")
	verifrt.Assert(b.PrepareMigrationFrom(loc, []string{"20-30"}) != nil, "only one migration can be prepared")
	verifrt.Assert(a.PrepareMigrationFrom(loc, []string{"5-10"}) != nil, "the owner of the slots does not accept to receive them")
	verifrt.Assert(a.slots.IsNormal(), "a refused migration changes nothing")
	started := verifrt.Choice("started", 2) == 1
	if started {
		m := &msg.Metadata{Name: "a", Bucket: "b"}
		bt, err := util.EncodeMsgp(m)
		verifrt.Assert(err == nil, "encoding succeeds")
		verifrt.Assert(b.ReceiveItem(&pb.MigrationItem{Name: "b/a", Dest: int32(entity.DestMetadata), Data: bt}) == nil, "an item is received")
	}
	verifrt.Advance(int64(2 * time.Second))
	verifrt.Drain()
	verifrt.Assert(b.slots.IsNormal() == !started, "a prepared migration is given up after the timeout exactly when nothing arrived")
	if started {
		verifrt.Assert(b.FinishReceiveItem(true) == nil && b.slots.IsNormal(), "a finished migration ends the waiting")
		verifrt.Assert(b.FinishReceiveItem(true) != nil, "a migration ends once")
		info, _, err := b.slots.Get("b")
		verifrt.Assert(err == nil && len(info.Slots) == 1 && info.Slots[0] == "0-10", "the slots received are the slots prepared")
	}
	verifrt.Reach("end")
}

// zzSlots is who owns what.
func zzSlots(kv *zzKV) string {
	var ks []string
	for k := range kv.m {
		ks = append(ks, k+"="+kv.m[k])
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}
