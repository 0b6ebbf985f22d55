package system

import (
	"common/registry"
	"common/system/disk"
	"common/verifrt"
	"context"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/shirou/gopsutil/v3/mem"
	clientv3 "go.etcd.io/etcd/client/v3"
)

//gosym:model github.com/shirou/gopsutil/v3/cpu.Counts
func zzCounts(bool) (int, error) { return 2, nil }

//gosym:model github.com/shirou/gopsutil/v3/cpu.Percent
func zzPercent(time.Duration, bool) ([]float64, error) { return []float64{12.5}, nil }

//gosym:model github.com/shirou/gopsutil/v3/mem.VirtualMemory
func zzMemory() (*mem.VirtualMemoryStat, error) {
	return &mem.VirtualMemoryStat{Total: 9, Used: 4, Free: 5}, nil
}

//gosym:model runtime.ReadMemStats
func zzMemStats(m *runtime.MemStats) { m.Alloc = 3 }

// The information a server saves of itself is collected and saved by several goroutines without a race, and lasts as
// long as its lease.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:with common/system/disk/zz_verif_mounts.go
//gosym:with common/system/disk/zz_verif_io.go
//gosym:harness C33 quick=40s thorough=100s
func VerifC33System() {
	disk.VerifInfo = func(string) (disk.Info, error) { return disk.Info{Total: 7, Free: 3}, nil }
	disk.VerifIO = func() (disk.AllDrivesIOStats, error) {
		return disk.AllDrivesIOStats{"a": &disk.IOStats{WeightedIO: 4}}, nil
	}
	e := registry.VerifNewEtcd()
	s := Syncer(e.Client(), "g/system/x")
	verifrt.Races()
	l, err := e.Grant(context.Background(), 5)
	verifrt.Assert(err == nil, "a lease is granted")
	n := 1 + verifrt.Choice("collectors", 2)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if i == 0 {
				zzLease(s, l.ID)
			}
			s.Sync()
		}(i)
	}
	wg.Wait()
	verifrt.Assert(s.Sync() == nil, "information is saved")
	keys, vals := e.Keys()
	verifrt.Assert(len(keys) == 1 && keys[0] == "g/system/x" && strings.Contains(vals[0], "logical_count"), "information is saved once")
	verifrt.Assert(e.Bound("g/system/x"), "information lasts as long as the lease")
	verifrt.Assert(s.Clear() == nil, "information is removed")
	keys, _ = e.Keys()
	verifrt.Assert(len(keys) == 0, "nothing is left after removing")
	verifrt.Reach("saved")
}

func zzLease(s *StatSyncer, id clientv3.LeaseID) { s.SetLease(id) }
