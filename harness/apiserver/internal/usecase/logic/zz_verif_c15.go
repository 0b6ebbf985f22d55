package logic

import (
	"apiserver/config"
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/webapi"
	"common/registry"
	"common/verifrt"
	"common/verifrt/httpm"
	_ "common/verifrt/jsonm"
	"errors"
	"net/http"
	"strconv"
	"time"
)

type zzNode struct {
	host string
	down int // 1: unreachable, 2: refuses
	load int64
	text string
	used int
}

// zzLoad makes a number of n digits and its text.
func (s *zzNode) zzLoad(n int) {
	b := verifrt.AnyBytes("digits", n)
	v := int64(0)
	for _, c := range b {
		verifrt.Assume(verifrt.And(c >= '0', c <= '9'))
		v = v*10 + int64(c-'0')
	}
	s.load, s.text = v, string(b)
}

var zzKinds = []string{"random", "space-first", "io-first", "Space-First"}

func zzCluster(n int, kind int, digits bool) []*zzNode {
	pool.Config = &config.Config{}
	pool.Config.Discovery.DataServName = "objs"
	ids := map[string]string{}
	var ss []*zzNode
	for i := 0; i < n; i++ {
		s := &zzNode{host: "10.0.0." + strconv.Itoa(i+1) + ":80"}
		ss = append(ss, s)
		ids["o"+strconv.Itoa(i)] = s.host
		if kind != 0 {
			s.down = verifrt.Choice("down", 3)
			if s.down == 0 {
				k := 1
				if digits {
					k = []int{1, 10}[verifrt.Choice("length", 2)]
				}
				s.zzLoad(k)
			}
		}
	}
	pool.Discovery = registry.VerifDiscovery(map[string]map[string]string{"objs": ids, "others": {"x": "10.9.9.9:1"}})
	webapi.VerifTransport(httpm.Transport(func(r *http.Request) (*http.Response, error) {
		for _, s := range ss {
			if s.host == r.URL.Host {
				switch s.down {
				case 1:
					return nil, errors.New("unreachable")
				case 2:
					return httpm.Response(500, nil, nil), nil
				}
				name := "Capacity"
				if kind == 2 {
					name = "Weighted-IO"
				}
				return httpm.Response(200, map[string]string{name: s.text}, nil), nil
			}
		}
		verifrt.Assert(false, "only object servers are asked for their load")
		return nil, nil
	}))
	return ss
}

// zzPicked checks servers chosen one after another.
func zzPicked(ss []*zzNode, kind int, got []string) {
	for _, s := range ss {
		s.used = 0
	}
	for i, g := range got {
		var s *zzNode
		for _, x := range ss {
			if x.host == g {
				s = x
			}
		}
		verifrt.Assert(s != nil, "a chosen server is registered")
		verifrt.Assert(s.used == i/len(ss), "no server is chosen again before all others are")
		s.used++
		if kind == 0 {
			continue
		}
		for _, x := range ss {
			if x.used == i/len(ss) && x != s && x.down == 0 { // left over
				verifrt.Assert(s.down == 0, "a server which cannot be reached comes last")
				verifrt.Assert(s.load <= x.load, "the server with the least load comes first")
			}
		}
	}
}

// Servers for shards are registered, spread evenly and the least loaded ones first.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:harness C15 quick=60s thorough=600s
func VerifC15Select() {
	n := 1 + verifrt.Choice("servers", verifrt.Bound("servers", 3, 4))
	k := verifrt.Choice("strategy", 4)
	sel := selector.NewSelector(zzKinds[k])
	k = k % 3
	if k == 0 && sel.Strategy() == selector.SpaceFirst {
		k = 1
	}
	ss := zzCluster(n, k, true)
	size := verifrt.Choice("shards", verifrt.Bound("shards", 5, 8))
	got := NewDiscovery().SelectDataServer(sel, size)
	verifrt.Assert(len(got) == size, "each shard gets a server")
	zzPicked(ss, k, got)
	verifrt.Reach("selected")
}

// One server at a time, too.
//
//gosym:harness C15 quick=40s thorough=300s
func VerifC15One() {
	n := 1 + verifrt.Choice("servers", 3)
	k := verifrt.Choice("strategy", 3)
	sel := selector.NewSelector(zzKinds[k])
	ss := zzCluster(n, k, true)
	var hosts []string
	for _, s := range ss {
		hosts = append(hosts, s.host)
	}
	got := sel.Select(hosts)
	zzPicked(ss, k, []string{got})
	pool.Balancer = sel
	d := NewDiscovery()
	lb := d.NewDataServSelector()
	var all []string
	for i := 0; i < 4; i++ {
		all = append(all, lb.Select())
	}
	zzPicked(ss, k, all)
	verifrt.Reach("selected")
}

// However often servers are chosen, none is chosen again before all the others were.
//
//gosym:harness C15 quick=60s thorough=300s
func VerifC15Rounds() {
	n := 2 + verifrt.Choice("servers", verifrt.Bound("servers", 2, 3))
	k := verifrt.Choice("strategy", 3)
	sel := selector.NewSelector(zzKinds[k])
	ss := zzCluster(n, k, false)
	got := NewDiscovery().SelectDataServer(sel, 4*n-1)
	verifrt.Assert(len(got) == 4*n-1, "each shard gets a server")
	zzPicked(ss, k, got)
	verifrt.Reach("selected")
}

// Loads are asked for again when they are old.
//
//gosym:harness C15 quick=40s thorough=300s native=off
func VerifC15Fresh() {
	k := 1 + verifrt.Choice("strategy", 2)
	sel := selector.NewSelector(zzKinds[k])
	ss := zzCluster(3, k, false)
	got := NewDiscovery().SelectDataServer(sel, 3)
	zzPicked(ss, k, got)
	for _, s := range ss {
		s.down = verifrt.Choice("down", 2)
		s.zzLoad(1)
	}
	verifrt.Advance(int64(90 * time.Second))
	got = NewDiscovery().SelectDataServer(sel, 3)
	zzPicked(ss, k, got)
	verifrt.Reach("selected again")
}

// Without servers there are none to choose.
//
//gosym:harness C15 quick=20s thorough=60s
func VerifC15None() {
	k := verifrt.Choice("strategy", 3)
	zzCluster(0, k, false)
	pool.Balancer = selector.NewSelector(zzKinds[k])
	got := NewDiscovery().SelectDataServer(pool.Balancer, 3)
	verifrt.Assert(len(got) == 0, "no server is chosen when there is none")
	lb := NewDiscovery().NewDataServSelector()
	verifrt.Assert(lb.Select() == "", "no server is chosen when there is none")
	verifrt.Reach("none")
}
