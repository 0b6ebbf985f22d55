package performance

import (
	"common/verifrt"
	"sync"
	"time"
)

// Records put by several goroutines while others are saved and the collector is closed are all kept, without a race.
//
//gosym:with common/performance/zz_verif_c24.go
//gosym:harness C33 quick=40s thorough=200s
func VerifC33Collector() {
	st := &zzStore{}
	SetLocalStore(st)
	verifrt.Races()
	reached := verifrt.Choice("flush when reached", 2) == 1
	c := NewCollector(&Config{Enable: true, Store: Local, FlushInterval: 10 * time.Millisecond, MaxInMemory: 1 + verifrt.Choice("memory", 3), FlushWhenReached: reached})
	n := verifrt.Bound("records", 3, 4)
	var wg sync.WaitGroup
	async := verifrt.Choice("async", 2) == 1
	verifrt.Schedules(1)
	for i := 0; i < n; i++ {
		if async {
			c.PutAsync("read", "http", time.Duration(i))
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			verifrt.Assert(c.Put("read", "http", time.Duration(i)) == nil, "a record is put")
		}(i)
	}
	wg.Wait()
	verifrt.EndSchedules()
	if verifrt.Choice("wait", 2) == 1 {
		verifrt.Advance(int64(15 * time.Millisecond))
	}
	verifrt.Drain()
	verifrt.Assert(c.Close() == nil, "a collector is closed")
	verifrt.Drain()
	if reached {
		verifrt.Assert(len(st.all) == n, "every record reaches the store once")
		for i := 0; i < n; i++ {
			k := 0
			for _, x := range st.all {
				if x.Cost == time.Duration(i) {
					k++
				}
			}
			verifrt.Assert(k == 1, "every record reaches the store once")
		}
	}
	verifrt.Reach("closed")
}
