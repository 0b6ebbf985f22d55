package http

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/service"
	"common/verifrt"
	"common/verifrt/ginm"
	"net/http"
	"strconv"

	"github.com/gin-gonic/gin"
)

type zzAPI struct {
	h http.Handler
	w *service.VerifNet
	m *service.VerifMeta
}

func zzServe(n, page int) *zzAPI {
	gin.SetMode(gin.ReleaseMode)
	w := service.VerifWorld(n, page)
	m := &service.VerifMeta{Bucket: &entity.Bucket{Name: "b", Versioning: true, VersionRemains: 9}}
	b := service.VerifBuckets{M: m}
	return &zzAPI{NewHttpServer("0", service.NewObjectService(m, b, nil), m, b).Handler, w, m}
}

// put uploads an object. Strategies are told to the server as numbers.
func (a *zzAPI) put(data []byte, ss string, compress bool, n int64) *ginm.Writer {
	q := "compress=" + strconv.FormatBool(compress)
	if ss != "" {
		q += "&ss=" + ss
	}
	r := ginm.Do(a.h, "PUT", "/v1/objects/a.txt", q, map[string]string{"bucket": "b", "digest": "D"}, &service.VerifReader{Data: data, Step: 1000}, n)
	verifrt.Drain()
	return r
}

func (a *zzAPI) get(rg string, ver string) *ginm.Writer {
	head := map[string]string{"bucket": "b"}
	if rg != "" {
		head["Range"] = rg
	}
	q := ""
	if ver != "" {
		q = "version=" + ver
	}
	r := ginm.Do(a.h, "GET", "/v1/objects/a.txt", q, head, nil, 0)
	verifrt.Drain()
	return r
}

// zzWhole tells if a response is complete.
func zzWhole(r *ginm.Writer) bool {
	return !r.Abort && r.Head.Get("Content-Length") == strconv.Itoa(len(r.Body))
}

// A range of an object is read, with shards which are lost or not.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:harness C04 quick=100s thorough=600s
func VerifC04Range() {
	a := zzServe(3, 4)
	n := []int{1, 19, 33}[verifrt.Choice("size", verifrt.Bound("sizes", 2, 3))]
	data := service.VerifContent(n)
	ss := verifrt.Choice("strategy", 2)
	compress := verifrt.Choice("compress", 2) == 1
	r := a.put(data, strconv.Itoa(ss+1), compress, int64(n))
	verifrt.Assert(r.Code == 201, "an object is stored")
	if ss == 0 { // a lost shard
		if i := verifrt.Choice("lost", 4); i > 0 {
			v := a.m.Vers[0]
			delete(a.w.Servers[v.Locate[i-1]].Objects, v.Hash+"."+strconv.Itoa(i-1))
		}
	}
	first := verifrt.Choice("first", n+2)
	last, open := n-1, verifrt.Choice("open", 2) == 1
	rg := "bytes=" + strconv.Itoa(first) + "-"
	if !open {
		last = verifrt.Choice("last", n+2)
		verifrt.Assume(last > 0) // else not told from an open range
		rg += strconv.Itoa(last)
	}
	r = a.get(rg, "")
	if first >= n || last < first {
		verifrt.Assert(r.Code == 416, "a range behind the end is refused")
		verifrt.Reach("refused")
		return
	}
	if last >= n {
		last = n - 1
	}
	verifrt.Assert(r.Code/100 == 2 && zzWhole(r), "a range is readable")
	verifrt.Assert(verifrt.EqBytes(r.Body, data[first:last+1]), "exactly the bytes of the range are given")
	verifrt.Assert(a.w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// An object is uploaded and read by the API, by its version or the last one.
//
//gosym:harness C04 quick=60s thorough=300s
func VerifC04Object() {
	a := zzServe(3, 4)
	k := 1 + verifrt.Choice("versions", 2)
	var all [][]byte
	for i := 0; i < k; i++ {
		n := []int{1, 20}[verifrt.Choice("size", 2)]
		data := service.VerifContent(n)
		pool.Config.Object.DistinctSize = 1 << 40
		r := ginm.Do(a.h, "PUT", "/v1/objects/a.txt", []string{"", "ss=1", "ss=2"}[verifrt.Choice("strategy", 3)],
			map[string]string{"bucket": "b", "digest": "D" + strconv.Itoa(i)}, &service.VerifReader{Data: data, Step: 1000}, int64(n))
		verifrt.Drain()
		verifrt.Assert(r.Code == 201, "an object is stored")
		all = append(all, data)
	}
	for i := 0; i <= k; i++ {
		ver, want := "", all[k-1]
		if i > 0 {
			ver, want = strconv.Itoa(i), all[i-1]
		}
		r := a.get("", ver)
		verifrt.Assert(r.Code == 200 && zzWhole(r) && verifrt.EqBytes(r.Body, want), "every version is read as it was stored")
	}
	verifrt.Assert(a.get("", strconv.Itoa(k+1)).Code == 404, "there is no other version")
	r := ginm.Do(a.h, "GET", "/v1/objects/a.txt", "", map[string]string{"bucket": "b", "Range": []string{"bytes=x-", "bites=1-", "bytes=1-2-3", "bytes=-x"}[verifrt.Choice("bad", 4)]}, nil, 0)
	verifrt.Assert(r.Code == 400, "a malformed range is refused")
	verifrt.Assert(a.w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// Shards are lost while the object is read: a client can tell that a response is not complete.
//
//gosym:harness C04 quick=60s thorough=300s
func VerifC04Broken() {
	a := zzServe(3, 4)
	n := []int{1, 19, 40}[verifrt.Choice("size", 3)]
	data := service.VerifContent(n)
	ss := verifrt.Choice("strategy", 2)
	r := a.put(data, strconv.Itoa(ss+1), false, int64(n))
	verifrt.Assert(r.Code == 201, "an object is stored")
	kinds := []int{verifrt.Choice("shard 0", 5), verifrt.Choice("shard 1", 5), verifrt.Choice("shard 2", 5)}
	a.w.Fault = func(s *service.VerifServer, q *http.Request) int {
		i := int(q.URL.Path[len(q.URL.Path)-1] - '0')
		if q.Method != "GET" || i < 0 || i > 2 {
			return service.VerifOK
		}
		return kinds[i]
	}
	first := []int{0, n / 2}[verifrt.Choice("first", 2)]
	r = a.get("bytes="+strconv.Itoa(first)+"-", "")
	if r.Code/100 == 2 && zzWhole(r) {
		verifrt.Assert(verifrt.EqBytes(r.Body, data[first:]), "a complete response is the object")
		verifrt.Reach("read")
	} else if r.Code/100 == 2 {
		verifrt.Assert(r.Head.Get("Content-Length") == strconv.Itoa(n-first) && len(r.Body) < n-first, "a broken response is shorter than its length")
		verifrt.Assert(verifrt.EqBytes(r.Body, data[first:first+len(r.Body)]), "what is given was stored")
		verifrt.Reach("broken")
	}
	verifrt.Assert(a.w.Open == 0, "all responses are closed")
}
