package logic

import (
	"apiserver/internal/usecase/componet/selector"
	"common/verifrt"
	"sync"
)

// Requests choosing servers at the same time do not disturb each other.
//
//gosym:with apiserver/internal/usecase/logic/zz_verif_c15.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:harness C33 quick=60s thorough=600s
func VerifC33Select() {
	k := verifrt.Choice("strategy", 3)
	sel := selector.NewSelector(zzKinds[k])
	ss := zzCluster(2, k, false)
	verifrt.Races()
	verifrt.Schedules(verifrt.Bound("preemptions", 1, 2))
	var wg sync.WaitGroup
	got := make([][]string, 3)
	for i := range got {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i == 2 {
				got[i] = []string{sel.Select([]string{ss[0].host, ss[1].host})}
				return
			}
			got[i] = NewDiscovery().SelectDataServer(sel, 2)
		}(i)
	}
	wg.Wait()
	verifrt.EndSchedules()
	for _, g := range got {
		for _, h := range g {
			verifrt.Assert(h == ss[0].host || h == ss[1].host, "a registered server is chosen")
		}
	}
	verifrt.Reach("selected")
}
