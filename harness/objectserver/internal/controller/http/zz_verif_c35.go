package http

import (
	"bytes"
	"common/verifrt"
	"common/verifrt/fsm"
	"common/verifrt/ginm"
	"objectserver/internal/usecase/service"
	"runtime"
	"strconv"
	"syscall"
)

// Whatever is asked of an object server leaves no file open and no goroutine running, the disk, the source or the client failing or not.
//
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:with objectserver/internal/controller/http/zz_verif_c17.go
//gosym:harness C35 quick=60s thorough=300s native=off
func VerifC35Store() {
	c := service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	n := []int{100, 9000, 20000}[verifrt.Choice("size", 3)]
	compress := verifrt.Choice("compress", 2) == 1
	data := zzData(n, 1)
	src := &zzSource{b: data, fail: -1, step: 3000}
	kind := verifrt.Choice("fault", 5)
	if kind == 1 {
		src.fail = []int{0, 99, 4096, 8999}[verifrt.Choice("source", 4)]
		verifrt.Assume(src.fail < n)
	}
	do := verifrt.Choice("request", 5)
	id := ""
	switch do {
	case 1, 2: // reads of what is stored
		verifrt.Assert(zzOK(s.put("h.0", bytes.NewReader(data), n, compress)), "an object is stored")
		if verifrt.Choice("cached", 2) == 0 {
			c.Forget()
		}
	case 3, 4: // of an upload
		id = zzPost(s, "h.0", 2*n)
		verifrt.Assert(zzOK(zzPatch(s, id, bytes.NewReader(data), n)), "a piece is stored")
	}
	left := verifrt.Bound("operations", 6, 10)
	switch kind {
	case 2:
		at := fsm.Ops + 1 + verifrt.Choice("operation", left)
		fsm.Fault = func(op, path string) error {
			if fsm.Ops == at {
				return syscall.EIO
			}
			return nil
		}
	case 3:
		at := verifrt.Choice("read", 3)
		fsm.ReadFault = func(path string, off int64) error {
			at--
			if at == -1 {
				return syscall.EIO
			}
			return nil
		}
	case 4:
		ginm.Gone = []int{0, 50}[verifrt.Choice("gone", 2)]
	}
	g, f := runtime.NumGoroutine(), fsm.OpenHandles
	switch do {
	case 0:
		s.put("h.0", src, n, compress)
	case 1:
		verifrt.Assume(kind != 1)
		s.get("h.0", 0, n, compress)
	case 2:
		verifrt.Assume(kind != 1)
		s.get("h.0", n/2, n-n/2, compress)
	case 3:
		zzPatch(s, id, src, n)
		zzTemp(s, "GET", id, "", n)
	case 4:
		verifrt.Assume(kind != 1)
		zzTemp(s, "PUT", id, "compress="+strconv.FormatBool(compress), 0)
		zzTemp(s, "DELETE", id, "", 0)
	}
	fsm.Fault, fsm.ReadFault = nil, nil
	ginm.Gone = -1
	verifrt.Drain()
	verifrt.Assert(fsm.OpenHandles == f, "no file is left open")
	verifrt.Assert(runtime.NumGoroutine() <= g, "no goroutine is left running")
	verifrt.Reach("end")
}
