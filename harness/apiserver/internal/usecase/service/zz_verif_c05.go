package service

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/cst"
	"common/verifrt"

	"net/http"
	"strconv"
	"strings"
)

// Ways a shard is lost.
const (
	zzMissing = iota // the file is gone
	zzDown           // the server is gone
	zzRefused        // it can't be read
	zzHalf           // reading it breaks
	zzShort          // a part of the file is gone
	zzLosses
)

// zzLose loses the shards.
func zzLose(w *VerifNet, v *entity.Version, lost map[int]int) {
	key := func(i int) string { return v.Hash + "." + strconv.Itoa(i) }
	for i, how := range lost {
		s := w.Servers[v.Locate[i]]
		switch how {
		case zzMissing:
			delete(s.Objects, key(i))
		case zzDown:
			s.Down = true
		case zzShort:
			o := s.Objects[key(i)]
			o.Data = o.Data[:(len(o.Data)-1)/cst.OS.PageSize*cst.OS.PageSize]
		}
	}
	w.Fault = func(s *VerifServer, r *http.Request) int {
		for i, how := range lost {
			if s.Host == v.Locate[i] && r.Method == "GET" && strings.HasSuffix(r.URL.Path, "/"+key(i)) {
				if how == zzRefused {
					return Verif500
				}
				if how == zzHalf {
					return VerifHalf
				}
			}
		}
		return VerifOK
	}
}

// zzChooseLost chooses shards to lose.
func zzChooseLost(all, max int) map[int]int {
	lost := map[int]int{}
	for i := 0; i < all && len(lost) < max; i++ {
		if how := verifrt.Choice("shard", 1+zzLosses); how > 0 {
			lost[i] = how - 1
		}
	}
	return lost
}

// zzStoreRS stores an object as shards.
func zzStoreRS(w *VerifNet, m *VerifMeta, o *ObjectService, ds, ps, n int) []byte {
	pool.Config.Object.ReedSolomon.DataShards, pool.Config.Object.ReedSolomon.ParityShards = ds, ps
	data := VerifContent(n)
	_, err := zzPut(o, data, entity.ECReedSolomon, false, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	return data
}

// With up to as many lost shards as there are parity shards, an object is read as it was stored.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c03.go
//gosym:harness C05 quick=100s thorough=600s
func VerifC05Lost() {
	sh := [][2]int{{2, 1}, {1, 2}, {3, 2}, {4, 2}}[verifrt.Choice("shards", verifrt.Bound("kinds of shards", 3, 4))]
	ds, ps := sh[0], sh[1]
	w := VerifWorld(ds+ps, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 8 * ds, 8*ds + 3, 20 * ds}[verifrt.Choice("size", 4)]
	data := zzStoreRS(w, m, o, ds, ps, n)
	zzLose(w, m.Vers[0], zzChooseLost(ds+ps, ps))
	md, _ := m.GetMetadata("a.txt", "b", 1, false)
	s, err := o.GetObject(md, md.Versions[0])
	verifrt.Assert(err == nil, "an object with enough shards is readable")
	got, err := zzReadAll(s, []int{1000, 7}[verifrt.Choice("pieces", 2)])
	verifrt.Assert(err == nil, "an object with enough shards is readable")
	verifrt.Assert(verifrt.EqBytes(got, data), "an object with enough shards is read as it was stored")
	s.Close()
	verifrt.Drain()
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// With more lost shards than that, reading fails, and never gives something else.
//
//gosym:harness C05 quick=100s thorough=600s
func VerifC05TooMany() {
	sh := [][2]int{{2, 1}, {1, 1}, {2, 0}, {3, 2}}[verifrt.Choice("shards", verifrt.Bound("kinds of shards", 3, 4))]
	ds, ps := sh[0], sh[1]
	w := VerifWorld(ds+ps, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 8 * ds, 8*ds + 3, 20 * ds}[verifrt.Choice("size", 4)]
	data := zzStoreRS(w, m, o, ds, ps, n)
	lost := zzChooseLost(ds+ps, ds+ps)
	zzLose(w, m.Vers[0], lost)
	verifrt.Assume(len(lost) > ps)
	got, err, _ := zzGetClose(o, m, 1, 1000)
	verifrt.Assert(len(got) <= n && verifrt.EqBytes(got, data[:len(got)]), "what is read was stored")
	verifrt.Assert(err != nil || len(got) == n, "a part of an object is not taken for the object")
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("lost")
}

// Copies: one copy is enough.
//
//gosym:harness C05 quick=60s thorough=600s
func VerifC05Copies() {
	k := 1 + verifrt.Choice("copies", 3)
	w := VerifWorld(k, 4)
	pool.Config.Object.Replication.CopiesCount = k
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	n := []int{1, 8, 11}[verifrt.Choice("size", 3)]
	data := VerifContent(n)
	_, err := zzPut(o, data, entity.MultiReplication, false, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	lost := zzChooseLost(k, k)
	zzLose(w, m.Vers[0], lost)
	gone := 0
	for i := 0; i < k; i++ {
		how, ok := lost[i]
		if !ok || how > zzDown {
			break
		}
		gone++
	}
	_, broken := lost[gone]
	got, err, _ := zzGetClose(o, m, 1, []int{1000, 3}[verifrt.Choice("pieces", 2)])
	verifrt.Assert(len(got) <= n && verifrt.EqBytes(got, data[:len(got)]), "what is read was stored")
	verifrt.Assert(err != nil || len(got) == n, "a part of an object is not taken for the object")
	verifrt.Assert(broken || gone == k || err == nil, "an object with a copy left is readable")
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}
