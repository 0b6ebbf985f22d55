package http

import (
	"apiserver/internal/usecase/service"
	"common/verifrt"
	"common/verifrt/ginm"
	"net/http"
	"runtime"
	"strconv"
)

// zzLeft checks that nothing is left of requests, n goroutines having run before them.
func (a *zzAPI) zzLeft(n int) {
	verifrt.Drain()
	verifrt.Advance(int64(1e9))
	verifrt.Drain()
	verifrt.Assert(a.w.Open == 0, "all responses of other servers are closed")
	verifrt.Assert(runtime.NumGoroutine() <= n, "no goroutine is left running")
}

// zzFaults lets one server fail from the k-th request on, only at the k-th one, or not at all.
func (a *zzAPI) zzFaults(kinds int, at int) {
	f := verifrt.Choice("fault", kinds)
	if f == service.VerifOK {
		return
	}
	k := a.w.N + 1 + verifrt.Choice("request", at)
	once := verifrt.Choice("once", 2) == 1
	host := ""
	a.w.Fault = func(s *service.VerifServer, r *http.Request) int {
		if a.w.N == k {
			host = s.Host
		}
		if a.w.N == k || !once && s.Host == host {
			return f
		}
		return service.VerifOK
	}
}

// Storing an object leaves nothing behind, whatever fails meanwhile.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:harness C35 quick=60s thorough=300s native=stress
func VerifC35Put() {
	a := zzServe(3, 4)
	ss := verifrt.Choice("strategy", 2) + 1
	size := []int{3, 19}[verifrt.Choice("size", 2)]
	a.zzFaults(5, verifrt.Bound("requests", 8, 14))
	body := &service.VerifReader{Data: service.VerifContent(size), Step: 5}
	if verifrt.Choice("source", 2) == 1 {
		body.End = http.ErrBodyReadAfterClose
	}
	n := runtime.NumGoroutine()
	r := ginm.Do(a.h, "PUT", "/v1/objects/a.txt", "ss="+strconv.Itoa(ss), map[string]string{"bucket": "b", "digest": "D"}, body, int64(size))
	a.zzLeft(n)
	if r.Code == 201 {
		verifrt.Reach("stored")
	} else {
		verifrt.Reach("failed")
	}
}

// Reading an object or a part of it leaves nothing behind, whatever fails meanwhile, shards being lost, or the client going away.
//
//gosym:harness C35 quick=60s thorough=300s native=stress
func VerifC35Get() {
	a := zzServe(3, 4)
	ss := verifrt.Choice("strategy", 2) + 1
	r := a.put(service.VerifContent(19), strconv.Itoa(ss), false, 19)
	verifrt.Assert(r.Code == 201, "an object is stored")
	v := a.m.Vers[0]
	for i := range v.Locate {
		if verifrt.Choice("lost", 2) == 1 {
			name := v.Hash
			if ss == 1 {
				name += "." + strconv.Itoa(i)
			}
			delete(a.w.Servers[v.Locate[i]].Objects, name)
		}
	}
	a.zzFaults(5, verifrt.Bound("requests", 6, 12))
	head := map[string]string{"bucket": "b"}
	switch verifrt.Choice("range", 3) {
	case 1:
		head["Range"] = "bytes=3-9"
	case 2:
		head["Range"] = "bytes=15-"
	}
	if verifrt.Choice("gone", 2) == 1 {
		ginm.Gone = 2
	}
	n := runtime.NumGoroutine()
	r = ginm.Do(a.h, "GET", "/v1/objects/a.txt", "", head, nil, 0)
	ginm.Gone = -1
	a.zzLeft(n)
	if r.Code/100 == 2 && !r.Abort {
		verifrt.Reach("read")
	} else {
		verifrt.Reach("failed")
	}
}

// An upload in parts leaves nothing behind while it waits for a part, when it is finished, or when servers fail or its source breaks off.
//
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c20.go
//gosym:with apiserver/internal/controller/http/zz_verif_c20.go
//gosym:harness C35 quick=60s thorough=300s native=stress
func VerifC35Upload() {
	a := zzBig(3, 4)
	data := service.VerifContent(19)
	compress := verifrt.Choice("compress", 2) == 1
	when := verifrt.Choice("during", 3)
	n := runtime.NumGoroutine()
	if when == 0 {
		a.zzFaults(5, verifrt.Bound("requests", 3, 4))
	}
	r := a.start(19, "D", compress)
	a.zzLeft(n)
	if r.Code != 201 {
		verifrt.Reach("not started")
		return
	}
	a.w.Fault = nil
	path := r.Head.Get("Location")
	if when == 1 {
		a.zzFaults(5, verifrt.Bound("part requests", 8, 14))
	}
	src := &service.VerifReader{Data: data[:9], Step: 5}
	if verifrt.Choice("source", 2) == 1 {
		src.End = http.ErrBodyReadAfterClose
	}
	a.part(path, 0, src, 19)
	a.zzLeft(n)
	a.w.Fault = nil
	_, at := a.at(path)
	a.zzLeft(n)
	if at < 0 {
		verifrt.Reach("lost")
		return
	}
	if when == 2 {
		a.zzFaults(5, verifrt.Bound("last requests", 10, 16))
	}
	r = a.part(path, at, &service.VerifReader{Data: data[at:], Step: 1000}, 19-at)
	a.zzLeft(n)
	if r.Code == 200 {
		verifrt.Reach("uploaded")
	} else {
		verifrt.Reach("failed")
	}
}
