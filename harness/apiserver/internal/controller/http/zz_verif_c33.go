package http

import (
	"apiserver/internal/usecase/service"
	"common/verifrt"
	"common/verifrt/ginm"
	"net/http"
	"strconv"
	"sync"
)

// Requests served at the same time share no unprotected state, nor do the goroutines of one request.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:harness C33 quick=120s thorough=600s
func VerifC33Objects() {
	a := zzServe(3, 4)
	data := service.VerifContent(19)
	ss := 1 + verifrt.Choice("strategy", 2)
	r := a.put(data, strconv.Itoa(ss), false, 19)
	verifrt.Assert(r.Code == 201, "an object is stored")
	if verifrt.Choice("lost", 2) == 1 {
		v := a.m.Vers[0]
		name := v.Hash
		if ss == 1 {
			name += ".0"
		}
		delete(a.w.Servers[v.Locate[0]].Objects, name)
	}
	switch verifrt.Choice("fault", 3) {
	case 1:
		a.w.Fault = func(s *service.VerifServer, r *http.Request) int {
			if r.Method == "PATCH" && s == a.w.At(0) {
				return service.Verif500
			}
			return service.VerifOK
		}
	case 2:
		a.w.Fault = func(s *service.VerifServer, r *http.Request) int {
			if r.Method == "GET" && s == a.w.At(0) {
				return service.VerifHalf
			}
			return service.VerifOK
		}
	}
	verifrt.Races()
	var wg sync.WaitGroup
	codes := make([]int, 2)
	what := []int{verifrt.Choice("first", 3), verifrt.Choice("second", 3)}
	for i := range codes {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			switch what[i] {
			case 0:
				body := &service.VerifReader{Data: service.VerifContent(9), Step: 5}
				q := "ss=" + strconv.Itoa(ss)
				r := ginm.Do(a.h, "PUT", "/v1/objects/b"+strconv.Itoa(i), q, map[string]string{"bucket": "b", "digest": "E" + strconv.Itoa(i)}, body, 9)
				codes[i] = r.Code
			case 1:
				codes[i] = ginm.Do(a.h, "GET", "/v1/objects/a.txt", "", map[string]string{"bucket": "b"}, nil, 0).Code
			case 2:
				codes[i] = ginm.Do(a.h, "GET", "/v1/objects/a.txt", "", map[string]string{"bucket": "b", "Range": "bytes=3-9"}, nil, 0).Code
			}
		}(i)
	}
	wg.Wait()
	verifrt.Drain()
	verifrt.Reach("served")
}
