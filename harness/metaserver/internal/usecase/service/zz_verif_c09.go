package service

import (
	"bytes"
	"common/proto/msg"
	"common/util"
	"common/verifrt"
	"errors"
	"io"
	"metaserver/internal/entity"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"

	"github.com/hashicorp/raft"
	bolt "go.etcd.io/bbolt"
)

// zzNode is a raft member: the state machine over its own database.
type zzNode struct {
	st    *db.Storage
	fsm   raft.FSM
	serv  *MetadataService
	buks  *BucketService
	batch *zzBatch
}

// zzBatch can fail to make the database durable.
type zzBatch struct {
	*repo.BatchMetaRepo
	syncErr error
	syncs   int
}

func (b *zzBatch) Sync() error {
	b.syncs++
	if b.syncErr != nil {
		return b.syncErr
	}
	return b.BatchMetaRepo.Sync()
}

func newZzNode(keep bool) *zzNode {
	s := db.NewStorage()
	verifrt.Assert(s.Open(verifrt.TempDir()+"/meta.db") == nil, "storage opens")
	c := newZzCache(keep)
	mc, bc := repo.NewMetadataCacheRepo(c), repo.NewBucketCacheRepo(c)
	r, br := repo.NewMetadataRepo(s, mc), repo.NewBucketRepo(s, bc)
	b := &zzBatch{BatchMetaRepo: repo.NewBatchRepo(s, mc)}
	rw := raftimpl.NewDisabledRaft()
	return &zzNode{s, raftimpl.NewFSM(r, b, br, repo.NewBatchBucketRepo(s, bc), r),
		NewMetadataService(r, b, repo.NewHashIndexRepo(s), rw), NewBucketService(br, rw), b}
}

var zzIndex uint64

func zzLog(d *entity.RaftData) *raft.Log {
	bt, err := util.EncodeMsgp(d)
	verifrt.Assert(err == nil, "encoding a log succeeds")
	zzIndex++
	return &raft.Log{Index: zzIndex, Term: 1, Type: raft.LogCommand, Data: bt}
}

func zzT(name string) int64 { return int64(verifrt.Int(name, 1, 100)) }

// zzAnyLog is any log the services write, on one of two objects or buckets.
func zzAnyLog(kinds int) *raft.Log {
	id := []string{"b/a", "b/c"}[verifrt.Choice("object", 2)]
	switch verifrt.Choice("log", kinds) {
	case 0:
		return zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestVersion, Name: id,
			Version: &msg.Version{Hash: "h", UniqueId: []string{"u1", "u2"}[verifrt.Choice("uid", 2)], Ts: zzT("ts"), Size: zzT("size"), Locate: []string{"s"}}})
	case 1:
		seq := uint64(1 + verifrt.Choice("seq", 2))
		return zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestVersion, Name: id, Sequence: seq})
	case 2:
		return zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestVersionAll, Name: id})
	case 3:
		return zzLog(&entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestVersion, Name: id, Sequence: uint64(1 + verifrt.Choice("seq", 2)),
			Version: &msg.Version{Hash: "x", UniqueId: "x", Ts: zzT("ts"), Size: zzT("size"), Locate: []string{"t"}}})
	case 4:
		return zzLog(&entity.RaftData{Type: entity.LogMigrate, Dest: entity.DestVersion, Name: id,
			Version: &msg.Version{Hash: "h", UniqueId: []string{"u1", "u3"}[verifrt.Choice("uid", 2)], Sequence: 2, Ts: zzT("ts"), Locate: []string{"s"}}})
	case 5:
		return zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: id, Metadata: &msg.Metadata{Name: "a", Bucket: "b", CreateTime: zzT("create"), UpdateTime: zzT("update")}})
	case 6:
		return zzLog(&entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestMetadata, Name: id, Metadata: &msg.Metadata{Name: "a2", Bucket: "b2", UpdateTime: zzT("update")}})
	case 7:
		return zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestMetadata, Name: id})
	case 8:
		return zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestBucket, Name: id, Bucket: &msg.Bucket{Name: id, CreateTime: zzT("create"), UpdateTime: zzT("update")}})
	case 9:
		return zzLog(&entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestBucket, Name: id, Bucket: &msg.Bucket{Name: id, Readonly: true, UpdateTime: zzT("update")}})
	case 10:
		return zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestBucket, Name: id})
	case 11:
		return zzLog(&entity.RaftData{Type: entity.LogMigrate, Dest: entity.DestMetadata, Name: id, Metadata: &msg.Metadata{Name: "a", Bucket: "b"}})
	case 12:
		l := zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestMetadata, Name: id})
		l.Type = raft.LogNoop
		return l
	case 13:
		l := zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestMetadata, Name: id})
		l.Data = [][]byte{nil, {0xc1}, l.Data[:len(l.Data)-3]}[verifrt.Choice("broken", 3)]
		return l
	}
	return nil
}

const zzKinds = 15

// zzStart is a history applied to every node before.
func zzStart(ns ...*zzNode) {
	var ls []*raft.Log
	switch verifrt.Choice("start", 3) {
	case 1:
		ls = append(ls, zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/a", Metadata: &msg.Metadata{Name: "a", Bucket: "b", UpdateTime: 50}}))
	case 2:
		ls = append(ls, zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/a", Metadata: &msg.Metadata{Name: "a", Bucket: "b", UpdateTime: 50}}),
			zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestVersion, Name: "b/a", Version: &msg.Version{Hash: "h", UniqueId: "u1", Ts: 50, Locate: []string{"s"}}}),
			zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestBucket, Name: "b/a", Bucket: &msg.Bucket{Name: "b/a", UpdateTime: 50}}))
	}
	for _, n := range ns {
		for _, l := range ls {
			n.fsm.Apply(l)
		}
	}
}

// zzDump is everything in the database, keys and values in order.
func zzDump(st *db.Storage) [][]byte {
	var res [][]byte
	_ = st.DB().View(func(tx *bolt.Tx) error {
		return tx.ForEach(func(name []byte, b *bolt.Bucket) error {
			if string(name) == "go.dfs.metadata.special.lastAppliedIndexKey" {
				return nil
			}
			zzDumpBucket(string(name), b, &res)
			return nil
		})
	})
	return res
}

func zzDumpBucket(path string, b *bolt.Bucket, res *[][]byte) {
	*res = append(*res, []byte(path), []byte(util.UIntString(b.Sequence())))
	_ = b.ForEach(func(k, v []byte) error {
		if v == nil {
			sub := b.Bucket(k)
			if c, _ := sub.Cursor().First(); c == nil && (path == "go.dfs.index.hashIndex" || path == "go.dfs.index.uniqueIdIndex") {
				return nil // an index entry that leads nowhere
			}
			zzDumpBucket(path+"/"+string(k), sub, res)
			return nil
		}
		*res = append(*res, append([]byte{}, k...), append([]byte{}, v...))
		return nil
	})
}

func zzSameDump(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = verifrt.And(ok, verifrt.EqBytes(a[i], b[i]))
	}
	return ok
}

func zzOutcome(r any) (bool, any) {
	switch r := r.(type) {
	case *raftimpl.FSMResponse:
		return r.Ok(), r.Data
	case error:
		return r == nil, nil
	}
	return false, nil
}

// Applying logs in batches of any size, or one by one, gives every log the same outcome and every
// member the same database and the same answers.
//
//gosym:with metaserver/internal/usecase/service/zz_verif_support.go
//gosym:harness C09 quick=120s thorough=800s
func VerifC09Batch() {
	x, y := newZzNode(false), newZzNode(false)
	zzStart(x, y)
	n := verifrt.Bound("logs", 2, 3)
	var ls []*raft.Log
	for i := 0; i < n; i++ {
		ls = append(ls, zzAnyLog(zzKinds))
	}
	rs := y.fsm.(raft.BatchingFSM).ApplyBatch(ls)
	verifrt.Assert(len(rs) == n, "every log of a batch gets an answer")
	for i, l := range ls {
		ok1, d1 := zzOutcome(x.fsm.Apply(l))
		ok2, d2 := zzOutcome(rs[i])
		verifrt.Assert(ok1 == ok2, "a log succeeds in a batch exactly when it does alone")
		if ok1 {
			verifrt.Assert(d1 == d2, "a log gives the same data in a batch and alone")
		}
	}
	verifrt.Assert(zzSameDump(zzDump(x.st), zzDump(y.st)), "the database is the same after a batch and after single logs")
	verifrt.Reach("end")
}

// What a log does is what the log says: members answer reads as the model does. Failing to make a batch
// durable is reported for every log of it.
//
//gosym:harness C09 quick=60s thorough=300s
func VerifC09Sync() {
	y := newZzNode(false)
	zzStart(y)
	var ls []*raft.Log
	for i := 0; i < 2; i++ {
		ls = append(ls, zzAnyLog(zzKinds))
	}
	y.batch.syncErr = errors.New("disk failure")
	for _, r := range y.fsm.(raft.BatchingFSM).ApplyBatch(ls) {
		ok, _ := zzOutcome(r)
		verifrt.Assert(!ok, "no log of a batch that is not durable is reported as applied")
	}
	verifrt.Assert(y.batch.syncs > 0, "a batch is made durable")
	verifrt.Reach("end")
}

// A member that restarts applies its logs again: nothing is added twice. (Histories that also update or
// remove are not replayed to the same state in general, see the finding below.)
//
//gosym:harness C09 quick=120s thorough=800s
func VerifC09Replay() {
	x := newZzNode(false)
	ls := []*raft.Log{zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/a", Metadata: &msg.Metadata{Name: "a", Bucket: "b", UpdateTime: 50}})}
	for i := verifrt.Bound("logs", 2, 4); i > 0; i-- {
		ls = append(ls, zzAddingLog())
	}
	for _, l := range ls {
		x.fsm.Apply(l)
	}
	if verifrt.Choice("removed", 2) == 1 {
		l := zzLog(&entity.RaftData{Type: entity.LogRemove, Dest: entity.DestVersion, Name: "b/a", Sequence: uint64(1 + verifrt.Choice("seq", 2))})
		x.fsm.Apply(l)
		ls = append(ls, l)
	}
	before := zzDump(x.st)
	x.fsm.(raft.BatchingFSM).ApplyBatch(ls)
	verifrt.Assert(zzSameDump(before, zzDump(x.st)), "applying the logs again after a restart changes nothing")
	verifrt.Reach("end")
}

// zzAddingLog is a log that adds a record.
func zzAddingLog() *raft.Log {
	switch k := verifrt.Choice("adds", 4); k {
	case 0:
		return zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestVersion, Name: "b/a",
			Version: &msg.Version{Hash: []string{"h", "g"}[verifrt.Choice("hash", 2)], UniqueId: []string{"u1", "u2", "u3"}[verifrt.Choice("uid", 3)], Ts: zzT("ts"), Size: zzT("size"), Locate: []string{"s"}}})
	case 1:
		return zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/c", Metadata: &msg.Metadata{Name: "c", Bucket: "b", CreateTime: zzT("create")}})
	case 2:
		return zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestBucket, Name: "b", Bucket: &msg.Bucket{Name: "b", CreateTime: zzT("create")}})
	}
	i := verifrt.Choice("uid", 2)
	return zzLog(&entity.RaftData{Type: entity.LogMigrate, Dest: entity.DestVersion, Name: "b/a",
		Version: &msg.Version{Hash: "h", UniqueId: []string{"m1", "m2"}[i], Sequence: uint64(3 + i), Ts: zzT("ts"), Locate: []string{"s"}}})
}

// The history of the known finding: an update refused because its bucket did not exist yet succeeds when the
// logs are applied again after the bucket was created.
//
//gosym:harness C09 quick=10s thorough=30s
func VerifC09ReplayUpdate() {
	x := newZzNode(false)
	ls := []*raft.Log{
		zzLog(&entity.RaftData{Type: entity.LogUpdate, Dest: entity.DestBucket, Name: "b", Bucket: &msg.Bucket{Name: "b", Readonly: true, UpdateTime: 7}}),
		zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestBucket, Name: "b", Bucket: &msg.Bucket{Name: "b", UpdateTime: 3}}),
	}
	for _, l := range ls {
		x.fsm.Apply(l)
	}
	before := zzDump(x.st)
	x.fsm.(raft.BatchingFSM).ApplyBatch(ls)
	same := zzSameDump(before, zzDump(x.st))
	verifrt.Finding("replay-refused-update", !same)
	verifrt.Assert(same, "applying the logs again after a restart changes nothing")
	verifrt.Reach("end")
}

type zzSink struct {
	bytes.Buffer
	closed, canceled bool
}

func (s *zzSink) ID() string    { return "x" }
func (s *zzSink) Cancel() error { s.canceled = true; return nil }
func (s *zzSink) Close() error  { s.closed = true; return nil }

// A snapshot holds the state at the time it was taken, and a member restored from it has that state.
//
//gosym:harness C09 quick=60s thorough=300s
func VerifC09Snapshot() {
	x, y := newZzNode(false), newZzNode(false)
	zzStart(x)
	x.fsm.Apply(zzAnyLog(11))
	before := zzDump(x.st)
	snap, err := x.fsm.Snapshot()
	verifrt.Assert(err == nil, "taking a snapshot succeeds")
	done := make(chan struct{})
	later := zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/z", Metadata: &msg.Metadata{Name: "z", Bucket: "b"}})
	go func() { // may have to wait for the snapshot's transaction to end
		x.fsm.Apply(later)
		close(done)
	}()
	verifrt.Drain()
	sink := &zzSink{}
	verifrt.Assert(snap.Persist(sink) == nil && sink.closed && !sink.canceled, "persisting a snapshot succeeds")
	snap.Release()
	<-done
	y.fsm.Apply(zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/old", Metadata: &msg.Metadata{Name: "old", Bucket: "b"}}))
	verifrt.Assert(y.fsm.Restore(io.NopCloser(&sink.Buffer)) == nil, "restoring a snapshot succeeds")
	verifrt.Assert(zzSameDump(before, zzDump(y.st)), "the restored database is the one of the snapshot")
	verifrt.Drain()
	verifrt.Assert(zzSameDump(before, zzDump(y.st)), "the restored database stays")
	r := y.fsm.Apply(zzLog(&entity.RaftData{Type: entity.LogInsert, Dest: entity.DestMetadata, Name: "b/new", Metadata: &msg.Metadata{Name: "new", Bucket: "b"}}))
	ok, _ := zzOutcome(r)
	verifrt.Assert(ok, "a restored member takes new logs")
	_, _, err = y.serv.GetMetadata("b/new", -1, false)
	verifrt.Assert(err == nil, "a stored object is found")
	verifrt.Assert(y.st.Stop() == nil, "closing the database succeeds")
	verifrt.Reach("end")
}

var _ usecase.IBatchMetaRepo = (*zzBatch)(nil)
