package service

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/verifrt"
	"errors"
	"io"
	"net/http"
	"strconv"
)

// zzShards returns the content of shards of a version.
func zzShards(w *VerifNet, v *entity.Version) [][]byte {
	var r [][]byte
	for i, l := range v.Locate {
		f := w.Servers[l].Objects[v.Hash+"."+strconv.Itoa(i)]
		verifrt.Assert(f != nil, "a shard is stored")
		r = append(r, append([]byte{}, f.Data...))
	}
	return r
}

// zzRepaired checks every place which was recorded newly.
func zzRepaired(w *VerifNet, was, is *entity.Version, shards [][]byte) int {
	n := 0
	verifrt.Assert(len(is.Locate) == len(was.Locate), "every shard keeps a place")
	for i, l := range is.Locate {
		if l == was.Locate[i] {
			continue
		}
		n++
		verifrt.Assert(w.Servers[l] != nil, "the new place is an object server")
		f := w.Servers[l].Objects[was.Hash+"."+strconv.Itoa(i)]
		verifrt.Assert(f != nil, "a recorded place has the shard")
		verifrt.Assert(f.Compress == was.Compress && verifrt.EqBytes(f.Data, shards[i]), "a repaired shard is the lost one")
	}
	verifrt.Assert(is.Hash == was.Hash && is.Size == was.Size && is.Sequence == was.Sequence && is.StoreStrategy == was.StoreStrategy && is.DataShards == was.DataShards && is.ParityShards == was.ParityShards && is.Compress == was.Compress, "only places are changed")
	return n
}

// zzCount counts stored shards.
func zzCount(w *VerifNet) int {
	n := 0
	for _, s := range w.Servers {
		n += len(s.Objects)
	}
	return n
}

// zzLoseSome removes shards or servers.
func zzLoseSome(w *VerifNet, v *entity.Version, all, max int) int {
	lost := map[int]int{}
	for i := 0; i < all && len(lost) < max; i++ {
		if how := verifrt.Choice("shard", 3); how > 0 {
			lost[i] = how - 1
		}
	}
	zzLose(w, v, lost)
	w.Fault = nil
	return len(lost)
}

// Reading an object to its end restores the shards which were lost.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c03.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c05.go
//gosym:harness C29 quick=100s thorough=600s
func VerifC29Shards() {
	sh := [][2]int{{2, 1}, {1, 2}, {3, 2}}[verifrt.Choice("shards", 3)]
	ds, ps := sh[0], sh[1]
	w := VerifWorld(ds+ps+1, 4)
	pool.Config.Object.ReedSolomon.RewriteAsync = verifrt.Choice("async", 2) == 1
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 20*ds - 1}[verifrt.Choice("size", 2)]
	data := zzStoreRS(w, m, o, ds, ps, n)
	was := verifCopy(m.Vers[0])
	shards := zzShards(w, was)
	lost := zzLoseSome(w, was, ds+ps, ps)
	for _, s := range w.Servers { // those which are gone are not discovered
		if s.Down {
			w.Forget(s)
		}
	}
	got, err := zzGet(o, m, 1, 1000)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "an object with enough shards is readable")
	verifrt.Assert(zzRepaired(w, was, m.Vers[0], shards) <= lost, "only lost shards move")
	zzShards(w, m.Vers[0])
	// so the same number of shards may be lost again
	now := m.Vers[0]
	for i, k := 0, ps; i < ds+ps && k > 0; i++ {
		if verifrt.Choice("lost again", 2) == 1 {
			delete(w.Servers[now.Locate[i]].Objects, now.Hash+"."+strconv.Itoa(i))
			k--
		}
	}
	got, err, _ = zzGetClose(o, m, 1, 1000)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "a repaired object has all its shards")
	verifrt.Reach("repaired")
}

// An object is not read to its end, or too many shards are lost: nothing of it is kept.
//
//gosym:harness C29 quick=60s thorough=300s
func VerifC29Partial() {
	const ds, ps = 2, 1
	w := VerifWorld(4, 4)
	pool.Config.Object.ReedSolomon.RewriteAsync = verifrt.Choice("async", 2) == 1
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 19, 40}[verifrt.Choice("size", 3)]
	zzStoreRS(w, m, o, ds, ps, n)
	was := verifCopy(m.Vers[0])
	shards := zzShards(w, was)
	zzLoseSome(w, was, ds+ps, ps)
	md, _ := m.GetMetadata("a.txt", "b", 1, false)
	s, err := o.GetObject(md, md.Versions[0])
	verifrt.Assert(err == nil, "an object with enough shards is readable")
	k := verifrt.Choice("read", 5) * n / 4
	if verifrt.Choice("by seeking", 2) == 1 {
		_, err = s.Seek(int64(k), io.SeekCurrent)
	} else {
		_, err = io.ReadFull(s, make([]byte, k))
	}
	verifrt.Assert(err == nil, "an object with enough shards is readable")
	verifrt.Note("close")
	s.Close()
	verifrt.Drain()
	zzRepaired(w, was, m.Vers[0], shards)
	for _, sv := range w.Servers {
		for name, f := range sv.Objects {
			i := int(name[len(name)-1] - '0')
			verifrt.Assert(verifrt.EqBytes(f.Data, shards[i]), "a part of shard is not kept as a shard")
		}
		verifrt.Assert(len(sv.Temps) == 0, "no upload is left open")
	}
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("closed")
}

// Saving a lost shard fails: it must not be recorded, and reading is not disturbed.
//
//gosym:harness C29 quick=100s thorough=600s
func VerifC29Fault() {
	const ds, ps = 2, 2
	w := VerifWorld(5, 4)
	pool.Config.Object.ReedSolomon.RewriteAsync = verifrt.Choice("async", 2) == 1
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 19, 40}[verifrt.Choice("size", 3)]
	data := zzStoreRS(w, m, o, ds, ps, n)
	was := verifCopy(m.Vers[0])
	shards := zzShards(w, was)
	zzLoseSome(w, was, ds+ps, ps)
	method := []string{"POST", "PATCH", "PUT", ""}[verifrt.Choice("request", 4)]
	nth := verifrt.Choice("nth", 3)
	kind := VerifLost + verifrt.Choice("fault", 4)
	seen := 0
	w.Fault = func(s *VerifServer, r *http.Request) int {
		if r.Method == method {
			if seen++; seen == nth+1 {
				return kind
			}
		}
		return VerifOK
	}
	if method == "" {
		m.Fail = func(op string) error {
			if op == "update" {
				return errors.New("no metadata server")
			}
			return nil
		}
	}
	got, err, _ := zzGetClose(o, m, 1, 1000)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "an object with enough shards is readable")
	w.Fault, m.Fail = nil, nil
	zzRepaired(w, was, m.Vers[0], shards)
	for _, sv := range w.Servers {
		for name, f := range sv.Objects {
			i := int(name[len(name)-1] - '0')
			verifrt.Assert(verifrt.EqBytes(f.Data, shards[i]), "a part of shard is not kept as a shard")
		}
	}
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// Copies which are lost are restored by reading the object to its end.
//
//gosym:harness C29 quick=60s thorough=600s
func VerifC29Copies() {
	k := 2 + verifrt.Choice("copies", 2)
	w := VerifWorld(k+1, 4)
	pool.Config.Object.Replication.CopiesCount = k
	pool.Config.Object.Replication.CopyAsync = verifrt.Choice("async", 2) == 1
	if verifrt.Choice("tolerance", 2) == 1 {
		pool.Config.Object.Replication.LossToleranceRate = 0.5
	}
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 8, 11}[verifrt.Choice("size", 3)]
	data := VerifContent(n)
	_, err := zzPut(o, data, entity.MultiReplication, verifrt.Choice("compress", 2) == 1, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	was := verifCopy(m.Vers[0])
	shards := zzShards(w, was)
	lost := 0
	for i := 0; i < k-1 && verifrt.Choice("lost", 2) == 1; i++ {
		delete(w.Servers[was.Locate[i]].Objects, was.Hash+"."+strconv.Itoa(i))
		lost++
	}
	failed := false
	if kind := verifrt.Choice("fault", 5); kind > 0 {
		nth, seen := verifrt.Choice("nth", 2), 0
		w.Fault = func(s *VerifServer, r *http.Request) int {
			if r.Method == "PUT" {
				if seen++; seen == nth+1 {
					failed = true
					return kind
				}
			}
			return VerifOK
		}
	}
	read := n
	if verifrt.Choice("whole", 2) == 0 {
		read = verifrt.Choice("read", n)
	}
	md, _ := m.GetMetadata("a.txt", "b", 1, false)
	s, err := o.GetObject(md, md.Versions[0])
	verifrt.Assert(err == nil, "an object with a copy left is readable")
	got := make([]byte, read)
	_, err = io.ReadFull(s, got)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data[:read]), "an object with a copy left is readable")
	s.Close()
	verifrt.Drain()
	w.Fault = nil
	moved := zzRepaired(w, was, m.Vers[0], shards)
	for _, sv := range w.Servers {
		for _, f := range sv.Objects {
			verifrt.Assert(verifrt.EqBytes(f.Data, shards[0]), "a part of object is not kept as a copy")
		}
	}
	if read == n && !failed && lost > pool.Config.Object.Replication.ToleranceLossNum() {
		zzShards(w, m.Vers[0]) // all copies are there
		verifrt.Assert(len(m.Updates) == 1, "restored copies are recorded")
	} else {
		verifrt.Assert(moved == 0, "copies which are not restored are not recorded")
	}
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("closed")
}

// Lost shards are saved while the object is read.
//
//gosym:harness C29 quick=60s thorough=600s
func VerifC29Parallel() {
	const ds, ps = 1, 1
	w := VerifWorld(3, 4)
	pool.Config.Object.ReedSolomon.RewriteAsync = true
	pool.Config.Object.ReedSolomon.BlockPerShard = 8
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	data := zzStoreRS(w, m, o, ds, ps, 19)
	was := verifCopy(m.Vers[0])
	shards := zzShards(w, was)
	i := verifrt.Choice("lost", 2)
	delete(w.Servers[was.Locate[i]].Objects, was.Hash+"."+strconv.Itoa(i))
	md, _ := m.GetMetadata("a.txt", "b", 1, false)
	s, err := o.GetObject(md, md.Versions[0])
	verifrt.Assert(err == nil, "an object with enough shards is readable")
	verifrt.Schedules(verifrt.Bound("preemptions", 0, 1))
	got, err := zzReadAll(s, 1000)
	s.Close()
	verifrt.Drain()
	verifrt.EndSchedules()
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "an object with enough shards is readable")
	zzRepaired(w, was, m.Vers[0], shards)
	zzShards(w, m.Vers[0])
	verifrt.Reach("repaired")
}
