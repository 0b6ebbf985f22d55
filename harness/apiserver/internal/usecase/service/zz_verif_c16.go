package service

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/verifrt"
	"strconv"
	"time"
)

// An object is found if and only if all of its shards are, each where it is.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c03.go
//gosym:harness C16 quick=100s thorough=600s
func VerifC16Locate() {
	const n = 3
	w := VerifWorld(2, 4)
	pool.Config.Object.DistinctTimeout = time.Second
	cli, e := VerifEtcdClient(w)
	o := NewObjectService(nil, nil, cli)
	k := 1 + verifrt.Choice("shards", n)
	// which shards a server has
	var have [2][n]bool
	var extra [2]int
	for s := 0; s < 2; s++ {
		for i := 0; i < k; i++ {
			have[s][i] = verifrt.Choice("has", 2) == 1
		}
		extra[s] = verifrt.Choice("answers", 4)
	}
	e.Answer = func(s *VerifServer, shard, place string) []string {
		x := 0
		if s == w.At(1) {
			x = 1
		}
		i := int(shard[len(shard)-1] - '0')
		verifrt.Assert(shard == "h."+strconv.Itoa(i) && i >= 0 && i < k, "the shards of the object are asked for")
		if !have[x][i] {
			return nil
		}
		switch extra[x] {
		case 1: // twice
			return []string{place, place}
		case 2: // and an answer to a shard which was not asked for
			return []string{s.Host + "#" + strconv.Itoa(k+4), place}
		case 3:
			return []string{s.Host + "#-1", place}
		}
		return []string{place}
	}
	at := verifrt.Now()
	got, ok := o.LocateObject("h", k)
	all := true
	for i := 0; i < k; i++ {
		all = all && (have[0][i] || have[1][i])
	}
	verifrt.Assert(ok == all, "an object is found if all shards are")
	verifrt.Assert(verifrt.Now()-at <= int64(2*time.Second), "an answer takes no longer than the time limit")
	if ok {
		verifrt.Assert(len(got) == k, "each shard has a place")
		for i, l := range got {
			verifrt.Assert(l == w.At(0).Host && have[0][i] || l == w.At(1).Host && have[1][i], "a shard is where it is said to be")
		}
		verifrt.Reach("found")
	} else {
		verifrt.Reach("not found")
	}
	verifrt.Assert(len(e.Deleted) == 1, "the key for answers is removed")
}

// Content which is stored already is not uploaded again, and the new version is complete.
//
//gosym:harness C16 quick=60s thorough=600s
func VerifC16Again() {
	w := VerifWorld(3, 4)
	pool.Config.Object.DistinctSize = 10
	pool.Config.Object.DistinctTimeout = time.Second
	equal := verifrt.Choice("as many parity as data", 2) == 1
	if equal {
		pool.Config.Object.ReedSolomon.DataShards = 1
	}
	cli, _ := VerifEtcdClient(w)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b", Versioning: true, VersionRemains: 9}}
	o := NewObjectService(m, VerifBuckets{m}, cli)
	n := []int{9, 10, 20}[verifrt.Choice("size", 3)]
	data := VerifContent(n)
	ss, compress := zzStrategy(), verifrt.Choice("compress", 2) == 1
	_, err := zzPut(o, data, ss, compress, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	first := verifCopy(m.Vers[0])
	lost := verifrt.Choice("lost", 4)
	if lost > 0 && lost <= len(first.Locate) {
		s := w.Servers[first.Locate[lost-1]]
		delete(s.Objects, first.Hash+"."+strconv.Itoa(lost-1))
	} else {
		lost = 0
	}
	// the second one may differ in something that changes what is stored
	data2, hash2, ss2, compress2 := data, "digest", ss, compress
	differ := verifrt.Choice("differ", 6)
	switch differ {
	case 1:
		data2, hash2 = VerifContent(n), "other"
	case 2:
		ss2 = entity.ECReedSolomon + entity.MultiReplication - ss
	case 3:
		compress2 = !compress
	case 4:
		pool.Config.Object.ReedSolomon.DataShards = 3 - pool.Config.Object.ReedSolomon.DataShards
		pool.Config.Object.Replication.CopiesCount = 3
	case 5: // as many shards as before
		pool.Config.Object.ReedSolomon.DataShards, pool.Config.Object.ReedSolomon.ParityShards = 1, 2
		if equal {
			pool.Config.Object.ReedSolomon.DataShards = 2
		}
	}
	before := w.N
	v, err := zzPutHash(o, data2, hash2, ss2, compress2, &VerifReader{Data: data2, Step: 1000})
	verifrt.Assert(err == nil && v == 2, "an object is stored")
	if differ == 0 && n >= 10 && lost == 0 {
		verifrt.Assert(w.N == before, "stored content is not uploaded again")
		verifrt.Reach("found")
	}
	// before it is read, which restores what is lost
	sec := m.Vers[1]
	verifrt.Assert(len(sec.Locate) == sec.DataShards+sec.ParityShards, "each shard has a place")
	for i, l := range sec.Locate {
		verifrt.Assert(w.Servers[l].Objects[sec.Hash+"."+strconv.Itoa(i)] != nil, "each shard of the new version is stored")
	}
	for i, d := range [][]byte{data, data2} {
		if i == 0 && lost > 0 {
			continue
		}
		got, err := zzGet(o, m, int32(i+1), 1000)
		verifrt.Assert(err == nil && verifrt.EqBytes(got, d), "every version is read as it was stored")
	}
	verifrt.Reach("stored")
}
