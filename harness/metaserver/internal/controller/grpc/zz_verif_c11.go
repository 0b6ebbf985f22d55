package grpc

import (
	"common/proto/msg"
	"common/proto/pb"
	"common/util"
	"common/verifrt"

	ggrpc "google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// Every write request reaches the metadata only on a server that may write and owns the key; every other one is
// refused, naming the owner. Reads need the owner only.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_world.go
//gosym:harness C11 quick=60s thorough=300s
func VerifC11Rpc() {
	w := zzSetup()
	ids := []string{zzKeys[0], zzKeys[1], zzKeys[2], "b/unowned", ""}
	verifrt.Assume(zzSlotOf("b/unowned") > zzSlotOf(zzKeys[2]) || zzSlotOf("b/unowned") < zzSlotOf(zzKeys[0]))
	id := ids[verifrt.Choice("id", len(ids))]
	enc := func(m any) []byte {
		switch m := m.(type) {
		case *msg.Metadata:
			b, _ := util.EncodeMsgp(m)
			return b
		case *msg.Version:
			b, _ := util.EncodeMsgp(m)
			return b
		}
		b, _ := util.EncodeMsgp(m.(*msg.Bucket))
		return b
	}
	var err error
	var want string
	write := true
	switch verifrt.Choice("method", 9) {
	case 0:
		want, write = "GetMetadata ", false
		err = w.call("/proto.MetadataApi/GetMetadata", &pb.MetaReq{Id: id}, &pb.Msgpack{})
	case 1:
		want, write = "GetVersion ", false
		err = w.call("/proto.MetadataApi/GetVersion", &pb.MetaReq{Id: id, Version: 1}, &pb.Msgpack{})
	case 2:
		want, write = "GetBucket ", false
		err = w.call("/proto.MetadataApi/GetBucket", &pb.MetaReq{Id: id}, &pb.Msgpack{})
	case 3:
		want, write = "ListVersions ", false
		err = w.call("/proto.MetadataApi/ListVersion", &pb.MetaReq{Id: id, Page: &pb.Pageable{Page: 1, PageSize: 1}}, &pb.Msgpack{})
	case 4:
		want = "AddMetadata "
		err = w.call("/proto.MetadataApi/SaveMetadata", &pb.Metadata{Id: id, Msgpack: enc(&msg.Metadata{Name: "x", Bucket: "b"})}, &pb.Empty{})
	case 5:
		want = "AddVersion "
		err = w.call("/proto.MetadataApi/SaveVersion", &pb.Metadata{Id: id, Msgpack: enc(&msg.Version{StoreStrategy: 1, Hash: "h", Size: 1, Locate: []string{"l"}, DataShards: 1, ParityShards: 1, ShardSize: 1})}, &pb.Int32{})
	case 6:
		want = "UpdateVersion "
		err = w.call("/proto.MetadataApi/UpdateVersion", &pb.Metadata{Id: id, Version: 1, Msgpack: enc(&msg.Version{StoreStrategy: 1, Hash: "h", Size: 1, Locate: []string{"l"}, DataShards: 1, ParityShards: 1, ShardSize: 1})}, &pb.Empty{})
	case 7:
		want = "RemoveVersion "
		err = w.call("/proto.MetadataApi/RemoveVersion", &pb.MetaReq{Id: id, Version: 1}, &pb.Empty{})
	case 8:
		want = "CreateBucket "
		err = w.call("/proto.MetadataApi/SaveBucket", &pb.Metadata{Id: id, Msgpack: enc(&msg.Bucket{Name: "x"})}, &pb.Empty{})
	}
	owner, mine, writable := w.ownerOf[id], w.mine(id), w.writable()
	if mine && (writable || !write) {
		verifrt.Assert(err == nil && len(w.rec.calls) == 1 && w.rec.calls[0] == want+id, "a request for a key of this server is served")
		verifrt.Reach("served")
		return
	}
	verifrt.Assert(err != nil && len(w.rec.calls) == 0, "a request this server may not serve is refused")
	if id != "" && !mine {
		verifrt.Assert(status.Code(err) == codes.Aborted, "a request for a foreign key is refused as such")
		if owner == "other" {
			verifrt.Assert(status.Convert(err).Message() == "10.0.0.9:80", "a request for a foreign key is referred to its owner")
			verifrt.Reach("referred")
		}
	} else if id != "" {
		verifrt.Assert(status.Code(err) == codes.Unavailable, "a write that is not possible now is refused as unavailable")
		verifrt.Reach("unavailable")
	}
}

// Migrations start only on a server that may write, and cluster commands only where they make sense.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_world.go
//gosym:harness C11 quick=60s thorough=300s
func VerifC11Commands() {
	w := zzSetup()
	writable := w.writable()
	switch verifrt.Choice("command", 8) {
	case 0:
		err := w.call("/proto.HashSlot/StartMigration", &pb.MigrationReq{}, &pb.Response{})
		verifrt.Assert((err == nil) == writable && (len(w.rec.calls) == 2) == writable, "a migration starts exactly on a server that may write")
	case 1:
		err := w.call("/proto.HashSlot/PrepareMigration", &pb.PrepareReq{}, &pb.Response{})
		verifrt.Assert((err == nil) == writable && (len(w.rec.calls) == 1) == writable, "a migration is prepared exactly on a server that may write")
	case 2:
		err := w.call("/proto.HashSlot/GetCurrentSlots", &pb.EmptyReq{}, &pb.Response{})
		verifrt.Assert(err == nil && len(w.rec.calls) == 1, "slots can always be read")
	case 3:
		err := w.call("/proto.MetadataApi/GetVersionsByHash", &pb.MetaReq{Hash: "h"}, &pb.Msgpack{})
		verifrt.Assert(err == nil && len(w.rec.calls) == 1, "versions can always be found by hash")
	case 4:
		err := w.call("/proto.RaftCmd/AddVoter", &pb.AddVoterReq{}, &pb.Response{})
		verifrt.Assert((err == nil) == (w.enabled && w.leader), "members are added exactly by the leader")
	case 5:
		err := w.call("/proto.RaftCmd/RemoveFollower", &pb.RemoveFollowerReq{FollowerId: "x"}, &pb.Response{})
		verifrt.Assert(err != nil, "members are not removed without a cluster")
		verifrt.Assert(w.leader || status.Code(err) == codes.Unavailable || status.Code(err) == codes.Unimplemented, "members are removed by the leader only")
	case 6:
		err := w.call("/proto.RaftCmd/JoinLeader", &pb.JoinLeaderReq{MasterId: "nobody"}, &pb.Response{})
		verifrt.Assert(err != nil, "a server cannot join a leader that does not exist")
		if w.leader {
			verifrt.Assert(status.Code(err) == codes.Unavailable, "a leader does not join another")
		}
	case 7:
		err := w.call("/proto.RaftCmd/Bootstrap", &pb.BootstrapReq{Services: []*pb.RaftServerItem{{Id: "a", Address: "b"}}}, &pb.Response{})
		verifrt.Assert(w.enabled || err != nil, "a cluster is not started without raft")
	}
	verifrt.Reach("end")
}

// zzRecvStream is the receiving end of a migration.
type zzRecvStream struct{ ggrpc.ServerStream }

// Items of a migration are received on any server that may lead, also while it is in the migration.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_world.go
//gosym:harness C11 quick=60s thorough=100s
func VerifC11Stream() {
	w := zzSetup()
	called := false
	err := CheckWritableStreaming(nil, &zzRecvStream{}, &ggrpc.StreamServerInfo{FullMethod: "/proto.HashSlot/StreamingReceive"}, func(srv any, s ggrpc.ServerStream) error {
		called = true
		return nil
	})
	verifrt.Assert(called == (!w.enabled || w.leader) && called == (err == nil), "migrated items are received exactly on a server that may lead")
	verifrt.Reach("end")
}
