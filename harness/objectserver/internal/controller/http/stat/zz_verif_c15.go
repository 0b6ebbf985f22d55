package stat

import (
	"common/datasize"
	"common/system/disk"
	"common/verifrt"
	"common/verifrt/ginm"
	"errors"
	"objectserver/internal/db"
	"objectserver/internal/usecase/pool"
	"strconv"

	"github.com/gin-gonic/gin"
)

// An object server reports the size of its objects and the average load of its drives.
//
//gosym:with common/system/disk/zz_verif_io.go
//gosym:harness C15 quick=40s thorough=300s
func VerifC15Stat() {
	gin.SetMode(gin.ReleaseMode)
	n := verifrt.Choice("drives", 4)
	fail := verifrt.Choice("no report", 2) == 1
	all := disk.AllDrivesIOStats{}
	var sum [9]uint64
	for i := 0; i < n; i++ {
		s := &disk.IOStats{}
		for j, p := range []*uint64{&s.ReadCount, &s.WriteCount, &s.ReadTime, &s.WriteTime, &s.CurrentIOs, &s.IoTime, &s.WeightedIO} {
			*p = uint64(verifrt.AnyUint32("stat"))
			sum[j] += *p
		}
		for j, p := range []*datasize.DataSize{&s.ReadBytes, &s.WriteBytes} {
			*p = datasize.DataSize(verifrt.AnyUint32("bytes"))
			sum[7+j] += uint64(*p)
		}
		all[disk.DevID("sd"+strconv.Itoa(i))] = s
	}
	disk.VerifIO = func() (disk.AllDrivesIOStats, error) {
		if fail {
			return nil, errors.New("no report")
		}
		return all, nil
	}
	avg, err := disk.GetAverageIOStats()
	verifrt.Assert(!fail || err != nil, "a failed report is an error")
	if err == nil && n > 0 {
		for j, v := range []uint64{avg.ReadCount, avg.WriteCount, avg.ReadTime, avg.WriteTime, avg.CurrentIOs, avg.IoTime, avg.WeightedIO, uint64(avg.ReadBytes), uint64(avg.WriteBytes)} {
			verifrt.Assert(v == sum[j]/uint64(n), "the average is that of all drives")
		}
	}
	for _, s := range all { // concrete numbers for the response
		s.WeightedIO = uint64(5 + verifrt.Choice("io", 2)*1<<33)
	}
	pool.ObjectCap = db.NewObjectCapacity()
	size := []int64{0, 5000, 1 << 40}[verifrt.Choice("size", 3)]
	pool.ObjectCap.AddCap(size)
	e := gin.New()
	e.GET("/stat", Info)
	r := ginm.Do(e, "GET", "/stat", "", nil, nil, 0)
	verifrt.Assert(r.Code == 200 || r.Code == 0, "a server reports its load")
	verifrt.Assert(r.Head.Get("Capacity") == strconv.FormatInt(size, 10), "the size of objects is reported")
	if !fail && n > 0 {
		w := uint64(0)
		for _, s := range all {
			w += s.WeightedIO
		}
		verifrt.Assert(r.Head.Get("Weighted-Io") == strconv.FormatUint(w/uint64(n), 10), "the load of drives is reported")
	}
	verifrt.Reach("reported")
}
