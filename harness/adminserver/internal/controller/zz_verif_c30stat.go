package controller

import (
	"adminserver/internal/entity"
	"adminserver/internal/usecase/db"
	"adminserver/internal/usecase/pool"
	"common/collection/set"
	"common/cst"
	"common/system"
	"common/util"
	"common/verifrt"
	"common/verifrt/ginm"
	"context"
	"encoding/json"
	"strconv"

	"github.com/gin-gonic/gin"
)

var zzKinds = []string{"api", "meta", "data"}

func (z *zzConsole) timeline(kind, what string, no int) map[string][]*db.TimeStat {
	w := z.do("GET", "/server/"+what+"/timeline", "server="+strconv.Itoa(no), nil)
	verifrt.Assert(w.Code == 200, "a timeline is answered")
	m := map[string][]*db.TimeStat{}
	if verifrt.Symbolic() {
		m, _ = ginm.Last.(map[string][]*db.TimeStat)
		return m
	}
	verifrt.Assert(json.Unmarshal(w.Body, &m) == nil, "a timeline is answered")
	return m
}

// The timelines shown are those of the samples saved, however etcd and its watches behave.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with adminserver/internal/usecase/db/zz_verif_support.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C30 quick=100s thorough=600s
func VerifC30Timeline() {
	z := zzNew(map[string]map[string]string{})
	max := 1 + verifrt.Choice("kept", 2)
	db.VerifMax(max)
	lossy := false
	type server struct {
		no    int
		id    string
		saved []int
	}
	no := verifrt.Choice("kind", 3)
	servers := []*server{{no: no, id: "s1"}, {no: no, id: "s2"}, {no: (no + 1) % 3, id: "s1"}}
	samples := 0
	put := func(s *server) {
		samples++
		info := system.ZeroInfo()
		info.CpuStatus.UsedPercent = float64(samples) / 10
		info.MemStatus.All, info.MemStatus.Used = 100, uint64(samples)
		b, err := util.EncodeMsgp(info)
		verifrt.Assert(err == nil, "a sample is encoded")
		z.etcd.Put(context.Background(), cst.EtcdPrefix.FmtSystemInfo("g", zzKinds[s.no], s.id), string(b))
		s.saved = append(s.saved, samples)
	}
	before := verifrt.Choice("before", 2) == 1
	if before {
		put(servers[0])
	}
	z.etcd.GetErrs = verifrt.Choice("errors", 2) * 3
	if z.etcd.GetErrs > 0 {
		lossy = true // samples are saved meanwhile
	}
	between := verifrt.Choice("between", 2) == 1
	z.etcd.AfterGet = func() {
		if between {
			between = false
			put(servers[0])
		}
	}
	pool.StatDB = db.NewServerStatDB(db.ServerStatCli{Watcher: pool.Etcd, KV: pool.Etcd}, "g", []string{"data", "meta", "api"})
	verifrt.Drain()
	steps := verifrt.Bound("steps", 3, 4)
	for i := 0; i < steps; i++ {
		switch k := verifrt.Choice("step", 6); k {
		case 3:
			z.etcd.Put(context.Background(), cst.EtcdPrefix.FmtSystemInfo("g", zzKinds[no], "s1"), "no sample")
		case 4:
			z.etcd.Break(false)
			lossy = true
		case 5:
			z.etcd.Break(true)
			lossy = true
		default:
			put(servers[k])
		}
		verifrt.Drain()
	}
	if lossy {
		verifrt.Advance(3e9)
		verifrt.Drain()
	}
	between = false
	for _, n := range []int{no, (no + 1) % 3, (no + 2) % 3} {
		cpu, mem := z.timeline(zzKinds[n], "cpu", n), z.timeline(zzKinds[n], "mem", n)
		known := 0
		for _, s := range servers {
			if s.no != n || len(s.saved) == 0 {
				continue
			}
			garbage := false
			if _, ok := cpu[s.id]; !ok && lossy {
				garbage = true // the last sample was overwritten before it was seen
			}
			if garbage {
				continue
			}
			known++
			c, m := cpu[s.id], mem[s.id]
			verifrt.Assert(len(c) > 0 && len(c) == len(m) && len(c) <= max, "a timeline has at most the kept samples")
			at := 0
			for i := range c {
				for at < len(s.saved) && c[i].Percent != float64(s.saved[at])/10 {
					at++
				}
				verifrt.Assert(at < len(s.saved) && m[i].Percent == float64(s.saved[at])/100, "a timeline shows the samples saved, in order")
				at++
			}
			if !lossy && !(before && len(s.saved) > 1 && s.saved[1] == 2) { // the second may have replaced the first
				want := len(s.saved)
				if want > max {
					want = max
				}
				verifrt.Assert(at == len(s.saved) && len(c) == want, "a timeline shows the last samples saved")
			}
		}
		verifrt.Assert(len(cpu) == known && len(mem) == known, "only servers with samples have timelines")
	}
	// samples saved now are seen whatever was before
	put(servers[1])
	verifrt.Drain()
	c := z.timeline(zzKinds[no], "cpu", no)["s2"]
	verifrt.Assert(len(c) > 0 && c[len(c)-1].Percent == float64(samples)/10, "a new sample is shown")
}

// The state shown of the servers is that of the servers registered.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with adminserver/internal/controller/zz_verif_c30stat.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C30 quick=60s thorough=600s
func VerifC30State() {
	all := map[string]map[string]string{}
	up := map[string]int{}
	ids := map[string][]string{"api": {"a0", "a1"}, "meta": {"m0_master", "m1_slave"}, "data": {"d0", "d1"}}
	addr := map[string]string{}
	n := 0
	for _, k := range zzKinds {
		all[k] = map[string]string{}
		for _, id := range ids[k] {
			n++
			addr[id] = "10.0.0." + strconv.Itoa(n) + ":80"
			if verifrt.Choice("up", 2) == 1 {
				all[k][id] = addr[id]
				up[k]++
			}
		}
	}
	z := zzNew(all)
	cores := map[string]int{}
	for i, k := range zzKinds {
		s := ids[k][0][:2]
		if verifrt.Choice("saved", 2) == 1 {
			info := system.ZeroInfo()
			info.CpuStatus.LogicalCount = i + 1
			b, err := util.EncodeMsgp(info)
			verifrt.Assert(err == nil, "a sample is encoded")
			z.etcd.Put(context.Background(), cst.EtcdPrefix.FmtSystemInfo("g", k, s), string(b))
			cores[s] = i + 1
		}
	}
	z.etcd.GetErrs = verifrt.Choice("errors", 2)
	fails := z.etcd.GetErrs > 0
	w := z.do("GET", "/server/stat", "", nil)
	if fails {
		verifrt.Assert(w.Code >= 400, "a state that is not known is an error")
		return
	}
	verifrt.Assert(w.Code == 200, "the state is answered")
	res := map[string]map[string]*entity.ServerInfo{}
	if verifrt.Symbolic() {
		h, ok := ginm.Last.(gin.H)
		verifrt.Assert(ok, "the state is answered")
		for k, v := range h {
			res[k], _ = v.(map[string]*entity.ServerInfo)
		}
	} else {
		verifrt.Assert(json.Unmarshal(w.Body, &res) == nil, "the state is answered")
	}
	for _, k := range zzKinds {
		m := res[k+"Server"]
		verifrt.Assert(len(m) == up[k], "exactly the servers registered are shown")
		for _, id := range ids[k] {
			s := m[id[:2]]
			if _, ok := all[k][id]; !ok {
				verifrt.Assert(s == nil, "a server that is gone is not shown")
				continue
			}
			verifrt.Assert(s != nil && s.ServerID == id[:2] && s.HttpAddr == addr[id], "a server is shown with its address")
			verifrt.Assert(s.IsMaster == (id == "m0_master"), "exactly masters are marked")
			verifrt.Assert(s.SysInfo != nil && s.SysInfo.CpuStatus.LogicalCount == cores[id[:2]], "a server is shown with its own state")
		}
	}
}

//gosym:model common/collection/set.OfMapKeys
func zzOfMapKeys(mp any) set.Set {
	st := set.NewMapSet()
	for k := range mp.(map[string]string) {
		st.Add(k)
	}
	return st
}
