package http

import (
	"bytes"
	"common/datasize"
	"common/system/disk"
	"common/verifrt"
	"common/verifrt/ginm"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"strconv"
	"strings"
	"sync"
)

// Requests served at the same time share no unprotected state, mount points being looked for meanwhile.
//
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:with common/system/disk/zz_verif_mounts.go
//gosym:with objectserver/internal/controller/http/zz_verif_c17.go
//gosym:harness C33 quick=120s thorough=600s
func VerifC33Store() {
	c := service.VerifWorld(verifrt.TempDir(), false, 5, 9)
	disk.VerifMounts = func() ([]string, error) { return pool.DriverManager.GetAllMountPoint(), nil }
	disk.VerifInfo = func(p string) (disk.Info, error) { return disk.Info{Free: datasize.DataSize(len(p)), Total: 100}, nil }
	s := zzServe()
	n := []int{5000, 70000}[verifrt.Choice("size", 2)]
	compress := verifrt.Choice("compress", 2) == 1
	verifrt.Assert(zzOK(s.put("a.0", bytes.NewReader(zzData(n, 1)), n, compress)), "an object is stored")
	if verifrt.Choice("cached", 2) == 0 {
		c.Forget()
	}
	id := zzPost(s, "t.0", 9)
	kinds := 8
	op := func(k, i int) {
		do := func(method, path, q, size string, body []byte) {
			h := map[string]string{}
			if size != "" {
				h["Size"] = size
			}
			ginm.Do(s.Handler, method, path, q, h, bytes.NewReader(body), int64(len(body)))
		}
		switch k {
		case 0:
			do("PUT", "/objects/b."+strconv.Itoa(i), zzQuery(compress), "", zzData(9, 2))
		case 1:
			do("PUT", "/objects/c.0", zzQuery(compress), "", zzData(9, 2))
		case 2:
			do("GET", "/objects/a.0", zzQuery(compress), strconv.Itoa(n), nil)
		case 3:
			do("HEAD", "/objects/a.0", "", "", nil)
		case 4:
			do("DELETE", "/objects/a.0", "", "", nil)
		case 5:
			do("PATCH", "/temp/"+id, "", "", []byte(strings.Repeat("x", 9)))
			do("PUT", "/temp/"+id, "", "", nil)
		case 6:
			pool.DriverManager.Update()
		case 7:
			service.WarmUpLocateCache()
		}
	}
	x, y := verifrt.Choice("first", kinds), verifrt.Choice("second", kinds)
	verifrt.Assume(x <= y)
	verifrt.Races()
	var wg sync.WaitGroup
	for i, k := range []int{x, y} {
		wg.Add(1)
		go func(i, k int) {
			defer wg.Done()
			op(k, i)
		}(i, k)
	}
	wg.Wait()
	verifrt.Drain()
	verifrt.Assert(pool.ObjectCap.Capacity() >= 0, "a capacity is not negative")
	verifrt.Reach("served")
}
