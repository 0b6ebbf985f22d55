package system

import (
	"common/datasize"
	"common/registry"
	"common/system/disk"
	"common/util"
	"common/verifrt"
	"errors"
	"time"

	clientv3 "go.etcd.io/etcd/client/v3"
)

// zzSaving starts a server that saves its information; what it saves changes with free.
func zzSaving(free *datasize.DataSize, broken *bool) (e *registry.VerifEtcd, lc *registry.Lifecycle, stop func(), over chan struct{}) {
	disk.VerifInfo = func(string) (disk.Info, error) {
		if *broken {
			return disk.Info{}, errors.New("no information")
		}
		return disk.Info{Total: 100, Free: *free}, nil
	}
	disk.VerifIO = func() (disk.AllDrivesIOStats, error) {
		return disk.AllDrivesIOStats{"a": &disk.IOStats{WeightedIO: 4}}, nil
	}
	e = registry.VerifNewEtcd()
	s := Syncer(e.Client(), "g/system/x")
	lc = registry.NewLifecycle(e.Client(), 10*time.Second)
	lc.Subscribe(func(id clientv3.LeaseID) {
		s.SetLease(id)
		_ = s.Sync()
	})
	e.GrantErrs = []int{0, 1, 100}[verifrt.Choice("no lease at first", 3)]
	stop = s.StartAutoSave()
	over = make(chan struct{})
	go func() {
		lc.DeadLoop()
		close(over)
	}()
	return
}

// A server saves its information all the time while its load, its leases and etcd change, until it dies.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:with common/system/zz_verif_c33.go
//gosym:with common/system/disk/zz_verif_mounts.go
//gosym:with common/system/disk/zz_verif_io.go
//gosym:harness C38 quick=100s thorough=600s native=off
func VerifC38Alive() {
	free, broken := datasize.DataSize(1), false
	e, _, _, _ := zzSaving(&free, &broken)
	for i := 0; i < verifrt.Bound("events", 2, 3); i++ {
		switch verifrt.Choice("then", 6) {
		case 0:
			e.Expire()
		case 1:
			e.Lose()
		case 2:
			e.PutErrs = 1
			e.Expire()
		case 3:
			free++
		case 4:
			broken = !broken
		case 5:
			verifrt.Drain()
			verifrt.Advance(int64(61 * time.Second))
		}
		if verifrt.Choice("wait", 2) == 1 {
			verifrt.Drain()
		}
	}
	verifrt.Drain()
	e.PutErrs, e.GrantErrs, broken = 0, 0, false
	e.Forget()
	verifrt.Advance(int64(61 * time.Second))
	verifrt.Drain()
	keys, vals := e.Keys()
	verifrt.Assert(len(keys) == 1 && keys[0] == "g/system/x", "the information of a server is saved once")
	verifrt.Assert(e.Bound("g/system/x"), "it lasts as long as the lease of the server")
	info := ZeroInfo()
	verifrt.Assert(util.DecodeMsgp(info, []byte(vals[0])) == nil, "it can be read")
	verifrt.Assert(info.DiskInfo.Free == free && info.DiskInfo.Total == 100 && info.IoStatus.WeightedIO == 4 && info.MemStatus.All == 9 && info.CpuStatus.UsedPercent == 0.13, "it is not older than a minute")
	verifrt.Reach("saved")
	e.GrantErrs = 1000
	e.Lose()
	e.Forget()
	verifrt.Drain()
	keys, _ = e.Keys()
	verifrt.Assert(len(keys) == 0, "nothing is told of a server that died")
}

// A server is closed at any moment, also while it saves its information.
//
//gosym:with common/registry/zz_verif_etcd.go
//gosym:with common/system/zz_verif_c33.go
//gosym:with common/system/disk/zz_verif_mounts.go
//gosym:with common/system/disk/zz_verif_io.go
//gosym:harness C38 quick=100s thorough=600s native=off
func VerifC38Closed() {
	free, broken := datasize.DataSize(1), false
	verifrt.Schedules(verifrt.Bound("switches", 1, 2))
	e, lc, stop, over := zzSaving(&free, &broken)
	switch verifrt.Choice("before", 3) {
	case 1:
		verifrt.Drain()
	case 2: // it saves right now
		verifrt.Drain()
		saving := make(chan bool, 1)
		e.OnPut = func() {
			select {
			case saving <- true:
			default:
			}
		}
		<-saving
	}
	stop()
	lc.Close()
	<-over
	verifrt.Drain()
	verifrt.EndSchedules()
	verifrt.Advance(int64(61 * time.Second))
	verifrt.Drain()
	keys, _ := e.Keys()
	verifrt.Assert(len(keys) == 0, "nothing is told of a server that was closed")
	verifrt.Reach("closed")
}
