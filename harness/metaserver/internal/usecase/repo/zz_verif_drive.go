package repo

import (
	"common/proto/msg"
	"common/verifrt"
	"errors"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"strconv"
	"strings"
)

// zzVer and zzObj are what the server promises to remember.
type zzVer struct {
	hash, uid, loc string
	ts, size       int64
}

type zzObj struct {
	exists         bool
	bucket         string
	create, update int64
	vers           map[int]*zzVer
	next           int
}

type zzWorld struct {
	st      *db.Storage
	m       *MetadataRepo
	w       usecase.WritableRepo
	hi      *HashIndexRepo
	cache   *zzCache
	objs    map[string]*zzObj
	uidUsed map[string]bool
}

// the second object's name looks like a version key of the first
var zzIds = []string{"b/a", "b/a.1"}

const zzMaxSeq = 4

func newZzWorld(keep, batch bool) *zzWorld {
	w := &zzWorld{st: zzStorage(), cache: newZzCache(keep), objs: map[string]*zzObj{}, uidUsed: map[string]bool{}}
	mc := NewMetadataCacheRepo(w.cache)
	w.m = NewMetadataRepo(w.st, mc)
	w.w = w.m
	if batch {
		w.w = NewBatchRepo(w.st, mc)
	}
	w.hi = NewHashIndexRepo(w.st)
	for _, id := range zzIds {
		w.objs[id] = &zzObj{vers: map[int]*zzVer{}}
	}
	return w
}

func zzTime(name string) int64 { return int64(verifrt.Int(name, 1, 100)) }

func (w *zzWorld) addMeta(id string) {
	o := w.objs[id]
	t, c := zzTime("update"), zzTime("create")
	err := w.w.AddMetadata(id, &msg.Metadata{Name: "n" + id, Bucket: "b", CreateTime: c, UpdateTime: t, Extra: &msg.Extra{Total: 7}})
	if o.exists {
		verifrt.Assert(errors.Is(err, usecase.ErrExists), "adding an object that exists is refused")
		return
	}
	verifrt.Assert(err == nil, "adding a new object succeeds")
	*o = zzObj{exists: true, bucket: "b", create: c, update: t, vers: map[int]*zzVer{}}
}

func (w *zzWorld) updateMeta(id string) {
	o := w.objs[id]
	t := zzTime("update")
	err := w.w.UpdateMetadata(id, &msg.Metadata{Name: "n" + id, Bucket: "other", CreateTime: 101, UpdateTime: t})
	if !o.exists {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "updating an unknown object is refused")
		return
	}
	if t <= o.update {
		verifrt.Assert(errors.Is(err, usecase.ErrOldData), "an outdated update of an object is refused")
		return
	}
	verifrt.Assert(err == nil, "a newer update of an object succeeds")
	o.update = t
}

func (w *zzWorld) removeMeta(id string) {
	o := w.objs[id]
	verifrt.Assert(w.w.RemoveMetadata(id) == nil, "removing an object succeeds")
	w.forget(o)
	*o = zzObj{vers: map[int]*zzVer{}}
}

func (w *zzWorld) forget(o *zzObj) {
	for _, v := range o.vers {
		w.uidUsed[v.uid] = false
	}
}

// uidLive tells whether the unique id belongs to a stored version; the id of a removed one is not tried.
func (w *zzWorld) uidLive(uid string) bool {
	for _, o := range w.objs {
		for _, v := range o.vers {
			if v.uid == uid {
				return true
			}
		}
	}
	verifrt.Assume(!w.uidUsed[uid])
	return false
}

func (w *zzWorld) addVer(id, hash, uid string) {
	o := w.objs[id]
	live := w.uidLive(uid)
	v := &msg.Version{Hash: hash, UniqueId: uid, Ts: zzTime("ts"), Size: zzTime("size"), Locate: []string{"s1", "s2"}, Sequence: 9}
	err := w.w.AddVersion(id, v)
	if !o.exists {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "a version of an unknown object is refused")
		return
	}
	if live {
		verifrt.Assert(errors.Is(err, usecase.ErrExists), "a version with a known unique id is refused")
		return
	}
	verifrt.Assert(err == nil, "adding a new version succeeds")
	o.next++
	verifrt.Assert(v.Sequence == uint64(o.next), "a new version gets the next version number")
	o.vers[o.next] = &zzVer{hash, uid, "s1", v.Ts, v.Size}
	w.uidUsed[uid] = true
}

func (w *zzWorld) addVerSeq(id, hash, uid string, seq int) {
	o := w.objs[id]
	live := w.uidLive(uid)
	v := &msg.Version{Hash: hash, UniqueId: uid, Ts: zzTime("ts"), Size: zzTime("size"), Locate: []string{"s1", "s2"}, Sequence: uint64(seq)}
	err := w.w.AddVersionFromRaft(id, v)
	if !o.exists {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "a migrated version of an unknown object is refused")
		return
	}
	if live || o.vers[seq] != nil {
		verifrt.Assert(errors.Is(err, usecase.ErrExists), "a migrated version that is there already is refused")
		return
	}
	verifrt.Assert(err == nil, "storing a migrated version succeeds")
	if seq > o.next {
		o.next = seq
	}
	o.vers[seq] = &zzVer{hash, uid, "s1", v.Ts, v.Size}
	w.uidUsed[uid] = true
}

func (w *zzWorld) updateVer(id string, seq int) {
	o := w.objs[id]
	ts, size := zzTime("ts"), zzTime("size")
	err := w.w.UpdateVersion(id, &msg.Version{Hash: "other", UniqueId: "other", Ts: ts, Size: size, Locate: []string{"s3", "s4"}, Sequence: uint64(seq)})
	v := o.vers[seq]
	if v == nil {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "updating an unknown version is refused")
		return
	}
	if ts <= v.ts {
		verifrt.Assert(errors.Is(err, usecase.ErrOldData), "an outdated update of a version is refused")
		return
	}
	verifrt.Assert(err == nil, "a newer update of a version succeeds")
	v.ts, v.size, v.loc = ts, size, "s3"
}

func (w *zzWorld) removeVer(id string, seq int) {
	o := w.objs[id]
	err := w.w.RemoveVersion(id, uint64(seq))
	if !o.exists {
		verifrt.Assert(err == nil || errors.Is(err, usecase.ErrNotFound), "removing a version of an unknown object does no harm")
		return
	}
	if o.vers[seq] == nil {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "removing an unknown version is reported")
		return
	}
	verifrt.Assert(err == nil, "removing a version succeeds")
	delete(o.vers, seq)
}

func (w *zzWorld) removeAll(id string) {
	o := w.objs[id]
	err := w.w.RemoveAllVersion(id)
	if !o.exists {
		verifrt.Assert(err != nil, "removing all versions of an unknown object is reported")
		return
	}
	verifrt.Assert(err == nil, "removing all versions succeeds")
	w.forget(o)
	o.vers, o.next = map[int]*zzVer{}, 0
}

func zzSameVer(got *msg.Version, seq int, v *zzVer) bool {
	if got.Hash != v.hash || got.UniqueId != v.uid || len(got.Locate) == 0 || got.Locate[0] != v.loc {
		return false
	}
	if v.ts < 0 {
		v.ts = got.Ts // set by the server's clock
	}
	return verifrt.And(verifrt.And(got.Ts == v.ts, got.Size == v.size), got.Sequence == uint64(seq))
}

func (w *zzWorld) readMeta(id string) {
	o := w.objs[id]
	g, err := w.m.GetMetadata(id)
	if !o.exists {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "an object that is not stored is not found")
		return
	}
	verifrt.Assert(err == nil, "a stored object is found")
	verifrt.Assert(g.Name == "n"+id && g.Bucket == o.bucket && g.Extra == nil, "the object read is the one stored")
	verifrt.Assert(verifrt.And(g.CreateTime == o.create, g.UpdateTime == o.update), "the object read has the stored times")
}

func (w *zzWorld) readVer(id string, seq int) {
	o := w.objs[id]
	g, err := w.m.GetVersion(id, uint64(seq))
	v := o.vers[seq]
	if v == nil {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "a version that is not stored is not found")
		return
	}
	verifrt.Assert(err == nil, "a stored version is found")
	verifrt.Assert(zzSameVer(g, seq, v), "the version read is the one stored")
}

// updateLocate moves the first shard of everything with that hash.
func (w *zzWorld) updateLocate(hash string, index int) {
	err := w.m.UpdateLocateByHash(hash, index, "s9")
	n := 0
	for _, o := range w.objs {
		for _, v := range o.vers {
			if v.hash == hash {
				n++
			}
		}
	}
	if index < 0 || index > 1 {
		verifrt.Assert(n == 0 || err != nil, "moving a shard that does not exist is refused")
		return
	}
	verifrt.Assert(err == nil, "moving a shard of stored versions succeeds")
	for _, o := range w.objs {
		for _, v := range o.vers {
			if v.hash == hash {
				v.ts = -1
				if index == 0 {
					v.loc = "s9"
				}
			}
		}
	}
}

// checkAll compares everything that can be read with what was promised.
func (w *zzWorld) checkAll() {
	byHash := map[string]map[string]bool{"h1": {}, "h2": {}, "other": {}}
	stored := 0
	for _, id := range zzIds {
		o := w.objs[id]
		w.readMeta(id)
		first, last, n := 0, 0, 0
		for seq := 1; seq <= zzMaxSeq; seq++ {
			w.readVer(id, seq)
			if v := o.vers[seq]; v != nil {
				n++
				if first == 0 {
					first = seq
				}
				last = seq
				byHash[v.hash][id+"."+strconv.Itoa(seq)] = true
			}
		}
		if !o.exists {
			_, err := w.m.GetExtra(id)
			verifrt.Assert(err != nil, "an unknown object has no version summary")
			continue
		}
		stored++
		ex, err := w.m.GetExtra(id)
		verifrt.Assert(err == nil && ex.Total == n && ex.FirstVersion == first && ex.LastVersion == last, "the version summary is exact")
		verifrt.Assert(w.m.GetLastVersionNumber(id) == uint64(last), "the last version number is exact")
		verifrt.Assert(w.m.GetFirstVersionNumber(id) == uint64(first), "the first version number is exact")
	}
	for h, want := range byHash {
		keys, err := w.hi.FindAll(h)
		verifrt.Assert(err == nil && len(keys) == len(want), "every version is found by its hash and no other")
		for _, k := range keys {
			verifrt.Assert(want[k], "the hash leads to the versions that have it")
		}
	}
	for _, u := range []string{"u1", "u2"} {
		live := false
		for _, o := range w.objs {
			for _, v := range o.vers {
				live = live || v.uid == u
			}
		}
		ok, err := w.m.ExistsByUniqueId(u)
		verifrt.Assert(err == nil, "looking up a unique id succeeds")
		if live || !w.uidUsed[u] {
			verifrt.Assert(ok == live, "a unique id is known exactly while its version is stored")
		}
	}
	lst, total, err := w.m.ListMetadata("", 10)
	if stored > 0 {
		verifrt.Assert(err == nil && len(lst) == stored && total == stored, "listing shows every stored object once")
	}
	for _, prefix := range []string{"b/a", "b/a."} {
		n := 0
		for _, id := range zzIds {
			if w.objs[id].exists && strings.HasPrefix(id, prefix) {
				n++
			}
		}
		lst, total, err := w.m.ListMetadata(prefix, 1)
		if n > 0 {
			verifrt.Assert(err == nil && len(lst) == 1 && total == n, "listing by prefix shows the first objects and counts all")
			first := zzIds[1]
			if prefix == "b/a" && w.objs[zzIds[0]].exists {
				first = zzIds[0]
			}
			verifrt.Assert(lst[0].Name == "n"+first, "listing by prefix starts with the first object")
		} else if stored > 0 {
			verifrt.Assert(err == nil && len(lst) == 0 && total == 0, "listing by prefix shows nothing else")
		}
	}
}

// step runs one operation of any kind on any object.
func (w *zzWorld) step(reads bool) {
	n := 8
	if reads {
		n = 10
	}
	op := verifrt.Choice("op", n)
	id := zzIds[verifrt.Choice("object", 2)]
	switch op {
	case 0:
		w.addMeta(id)
	case 1:
		w.updateMeta(id)
	case 2:
		w.removeMeta(id)
	case 3:
		w.addVer(id, []string{"h1", "h2"}[verifrt.Choice("hash", 2)], []string{"u1", "u2"}[verifrt.Choice("uid", 2)])
	case 4:
		w.updateVer(id, 1+verifrt.Choice("seq", 2))
	case 5:
		w.removeVer(id, 1+verifrt.Choice("seq", 2))
	case 6:
		w.removeAll(id)
	case 7:
		w.addVerSeq(id, "h1", []string{"u1", "u2"}[verifrt.Choice("uid", 2)], []int{1, 3}[verifrt.Choice("seq", 2)])
	case 8:
		w.readMeta(id)
	case 9:
		w.readVer(id, 1+verifrt.Choice("seq", 2))
	}
}

// setup brings the world into one of several states.
func (w *zzWorld) setup() {
	a, b := zzIds[0], zzIds[1]
	switch verifrt.Choice("start", 4) {
	case 1:
		w.addMeta(a)
		w.addVer(a, "h1", "u1")
	case 2:
		w.addMeta(a)
		w.addVer(a, "h1", "u1")
		w.addVer(a, "h1", "u3")
	case 3:
		w.addMeta(a)
		w.addMeta(b)
		w.addVer(a, "h1", "u1")
		w.addVer(b, "h1", "u2")
	}
}
