package http

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/service"
	"common/util/crypto"
	"common/verifrt"
	"common/verifrt/ginm"
	_ "common/verifrt/gobm"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
)

func zzBig(n, page int) *zzAPI {
	gin.SetMode(gin.ReleaseMode)
	w := service.VerifWorld(n, page)
	pool.Config.Object.DistinctTimeout = 30 * time.Millisecond
	m := &service.VerifMeta{Bucket: &entity.Bucket{Name: "b", Versioning: true, VersionRemains: 9}}
	b := service.VerifBuckets{M: m}
	cli, _ := service.VerifEtcdClient(w)
	return &zzAPI{NewHttpServer("0", service.NewObjectService(m, b, cli), m, b).Handler, w, m}
}

func (a *zzAPI) start(n int, digest string, compress bool) *ginm.Writer {
	r := ginm.Do(a.h, "POST", "/v1/big/a.txt", "compress="+strconv.FormatBool(compress), map[string]string{"bucket": "b", "digest": digest, "size": strconv.Itoa(n)}, nil, 0)
	verifrt.Drain()
	return r
}

// at tells how much of an upload the server has.
func (a *zzAPI) at(path string) (*ginm.Writer, int) {
	r := ginm.Do(a.h, "HEAD", path, "", nil, nil, 0)
	verifrt.Drain()
	n, err := strconv.Atoi(r.Head.Get("Content-Length"))
	if r.Code != 200 || err != nil {
		return r, -1
	}
	return r, n
}

func (a *zzAPI) part(path string, first int, body io.Reader, n int) *ginm.Writer {
	r := ginm.Do(a.h, "PATCH", path, "", map[string]string{"Range": "bytes=" + strconv.Itoa(first) + "-"}, body, int64(n))
	verifrt.Drain()
	return r
}

// clean tells that servers keep no uploads.
func (a *zzAPI) clean() bool {
	for _, s := range a.w.Servers {
		if len(s.Temps) > 0 {
			return false
		}
	}
	return true
}

func (a *zzAPI) check(data []byte, ver string) {
	v := a.m.Vers[len(a.m.Vers)-1]
	for _, x := range a.m.Vers {
		if strconv.Itoa(int(x.Sequence)) == ver {
			v = x
		}
	}
	verifrt.Assert(len(v.Locate) == v.DataShards+v.ParityShards, "every shard of an upload has a place")
	for k, l := range v.Locate { // before it is read, which restores what is lost
		verifrt.Assert(a.w.Servers[l].Objects[v.Hash+"."+strconv.Itoa(k)] != nil, "every shard of an upload is stored")
	}
	a.read(data, ver)
	if v.ParityShards > 0 {
		delete(a.w.Servers[v.Locate[0]].Objects, v.Hash+".0")
		a.read(data, ver)
	}
}

func (a *zzAPI) read(data []byte, ver string) {
	r := a.get("", ver)
	verifrt.Assert(r.Code == 200 && zzWhole(r), "an uploaded object is readable")
	verifrt.Assert(verifrt.EqBytes(r.Body, data), "an uploaded object is read as it was sent")
}

// An object is uploaded in parts, some of which break off.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c20.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:harness C20 quick=200s thorough=900s
func VerifC20Upload() {
	verifrt.Terminates(3000000)
	a := zzBig(3, 4)
	block := 8
	switch verifrt.Choice("shards", 3) {
	case 1:
		a.m.Bucket.StoreStrategy = entity.ECReedSolomon
		a.m.Bucket.DataShards, a.m.Bucket.ParityShards = 1, 2
	case 2:
		pool.Config.Object.ReedSolomon.DataShards, pool.Config.Object.ReedSolomon.ParityShards = 3, 0
		pool.Config.Object.ReedSolomon.BlockPerShard = 8 // aligned when the configuration is read
		block = 24
	}
	n := []int{1, 8, 19, 29}[verifrt.Choice("size", verifrt.Bound("sizes", 3, 4))]
	data := service.VerifContent(n)
	compress := verifrt.Choice("compress", 2) == 1
	a.m.Bucket.Compress = verifrt.Choice("bucket compresses", 2) == 1
	r := a.start(n, "D", compress)
	verifrt.Assert(r.Code == 201 && r.Head.Get("Min-Part-Size") == strconv.Itoa(block), "an upload is started")
	path := r.Head.Get("Location")
	verifrt.Assert(strings.HasPrefix(path, "/v1/big/"), "an upload has a location")
	cur := 0
	for i := verifrt.Bound("parts", 2, 3); i > 0 && cur < n; i-- {
		k := 0
		switch verifrt.Choice("part", 5) { // how many of the rest
		case 0:
			k = 0
		case 1:
			k = 1
		case 2:
			k = block
		case 3:
			k = block + 3
		case 4:
			k = n - cur - 1
		}
		verifrt.Assume(cur+k < n)
		src := &service.VerifReader{Data: data[cur : cur+k], Step: 1000}
		want := cur + k/block*block
		switch verifrt.Choice("end", 3) {
		case 1:
			src.End = io.ErrUnexpectedEOF
		case 2:
			src.End = errors.New("connection lost")
		}
		r = a.part(path, cur, src, n-cur)
		if src.End == nil || src.End == io.ErrUnexpectedEOF {
			verifrt.Assert(r.Code == 206 && r.Head.Get("Content-Length") == strconv.Itoa(want), "an interrupted part tells how much is kept")
		} else {
			verifrt.Assert(r.Code/100 > 2, "a broken part is an error")
		}
		cur = want
		_, at := a.at(path)
		verifrt.Assert(at == cur, "what is kept of an upload is told")
		verifrt.Assert(len(a.m.Vers) == 0, "an unfinished upload is not an object")
	}
	r = a.part(path, cur, &service.VerifReader{Data: data[cur:], Step: []int{1000, 5}[verifrt.Choice("step", 2)]}, n-cur)
	verifrt.Assert(r.Code == 200 && len(a.m.Vers) == 1, "the last part finishes the upload")
	v := a.m.Vers[0]
	verifrt.Assert(v.Size == int64(n) && v.Compress == (compress || a.m.Bucket.Compress), "the version is described as it was uploaded")
	verifrt.Assert(a.clean(), "a finished upload leaves nothing")
	a.check(data, "1")
	verifrt.Assert(a.w.Open == 0, "all responses are closed")
	verifrt.Reach("uploaded")
}

// What doesn't belong to an upload is refused.
//
//gosym:harness C20 quick=60s thorough=300s
func VerifC20Refuse() {
	verifrt.Terminates(3000000)
	a := zzBig(3, 4)
	n := []int{8, 19}[verifrt.Choice("size", 2)]
	data := service.VerifContent(n + 20)
	switch verifrt.Choice("case", 8) {
	case 0: // bad requests
		a.m.Bucket.Readonly = verifrt.Choice("readonly", 2) == 1
		h := map[string]string{"bucket": "b", "digest": "D", "size": "5"}
		want := 400
		switch verifrt.Choice("missing", 6) {
		case 0:
			delete(h, "bucket")
		case 1:
			delete(h, "digest")
		case 2:
			delete(h, "size")
		case 3:
			h["size"] = []string{"0", "-5", "x"}[verifrt.Choice("bad size", 3)]
		case 4:
			h["bucket"] = "c"
			want = 404
		case 5:
			a.m.Bucket.Readonly = true
		}
		r := ginm.Do(a.h, "POST", "/v1/big/a.txt", "", h, nil, 0)
		verifrt.Assert(r.Code == want && a.clean() && len(a.m.Vers) == 0, "a bad upload is refused")
		verifrt.Reach("bad start")
		return
	case 1: // no server
		for i := 0; i < 3; i++ {
			a.w.Forget(a.w.At(i))
		}
		verifrt.Assert(a.start(n, "D", false).Code == 503, "no upload without servers")
		return
	}
	r := a.start(n, "D", false)
	verifrt.Assert(r.Code == 201, "an upload is started")
	path := r.Head.Get("Location")
	cur := 8 * verifrt.Choice("uploaded", 2)
	if n == 8 {
		cur = 0
	}
	if cur > 0 {
		verifrt.Assert(a.part(path, 0, &service.VerifReader{Data: data[:cur], Step: 1000}, cur).Code == 206, "a part is uploaded")
	}
	switch verifrt.Choice("refused", 4) {
	case 0: // from the wrong place
		first := verifrt.Choice("first", n+2)
		verifrt.Assume(first != cur)
		r = a.part(path, first, &service.VerifReader{Data: data[:n], Step: 1000}, n)
		verifrt.Assert(r.Code == 416, "a part from the wrong place is refused")
	case 1: // too long
		over := []int{1, 8, 20}[verifrt.Choice("over", 3)]
		r = a.part(path, cur, &service.VerifReader{Data: data[cur : n+over], Step: 1000}, n+over-cur)
		verifrt.Assert(r.Code == 403 && a.clean(), "a part which is too long ends the upload")
		verifrt.Assert(len(a.m.Vers) == 0, "a refused upload is not an object")
		_, at := a.at(path)
		verifrt.Assert(at == -1, "a removed upload is unknown")
		r = a.part(path, cur, &service.VerifReader{Data: data[:n], Step: 1000}, n)
		verifrt.Assert(r.Code/100 >= 4 && len(a.m.Vers) == 0, "a removed upload can't be continued")
		verifrt.Reach("too long")
		return
	case 2: // no range
		h := map[string]string{}
		if verifrt.Choice("range", 2) == 1 {
			h["Range"] = []string{"bytes", "bytes=a-", "0-"}[verifrt.Choice("bad range", 3)]
		}
		r = ginm.Do(a.h, "PATCH", path, "", h, &service.VerifReader{Data: data[:n], Step: 1000}, int64(n))
		verifrt.Assert(r.Code == 400, "a part without a place is refused")
	case 3: // tokens made up
		tk, err := url.PathUnescape(strings.TrimPrefix(path, "/v1/big/"))
		verifrt.Assert(err == nil, "a token is part of the location")
		bad := "/v1/big/" + url.PathEscape(service.VerifToken(tk, verifrt.Choice("token", 8)))
		r, at := a.at(bad)
		verifrt.Assert(r.Code == 400 && at == -1, "a token made up is refused")
		r = a.part(bad, cur, &service.VerifReader{Data: data[:n], Step: 1000}, n)
		verifrt.Assert(r.Code == 400, "a token made up is refused")
	}
	verifrt.Assert(len(a.m.Vers) == 0, "a refused part is not an object")
	_, at := a.at(path)
	verifrt.Assert(at == cur, "a refused part changes nothing")
	r = a.part(path, cur, &service.VerifReader{Data: data[cur:n], Step: 1000}, n-cur)
	verifrt.Assert(r.Code == 200, "an upload goes on after a refused part")
	a.check(data[:n], "1")
	verifrt.Reach("refused")
}

// One request of an upload fails: the object is whole or it isn't there.
//
//gosym:harness C20 quick=100s thorough=600s
func VerifC20Fault() {
	verifrt.Terminates(3000000)
	a := zzBig(3, 4)
	n := []int{3, 19}[verifrt.Choice("size", 2)]
	data := service.VerifContent(n)
	method := []string{"POST", "HEAD", "PATCH", "PUT", ""}[verifrt.Choice("request", 5)]
	on, at := verifrt.Choice("server", 3), verifrt.Choice("at", 3)
	kind := 1 + verifrt.Choice("fault", 4)
	seen := 0
	failed := false
	a.w.Fault = func(s *service.VerifServer, q *http.Request) int {
		if q.Method == method && s == a.w.At(on) && strings.HasPrefix(q.URL.Path, "/temp") {
			seen++
			if seen == at+1 {
				failed = true
				return kind
			}
		}
		return service.VerifOK
	}
	if method == "" {
		a.m.Fail = func(op string) error {
			if op == []string{"get", "bucket", "save"}[on] {
				seen++
				if seen == at+1 {
					failed = true
					return errors.New("metadata failed")
				}
			}
			return nil
		}
	}
	r := a.start(n, "D", false)
	if r.Code != 201 {
		verifrt.Assert(failed && r.Code >= 400, "an upload is started")
		return
	}
	path := r.Head.Get("Location")
	cur := 0
	if n == 19 {
		r = a.part(path, 0, &service.VerifReader{Data: data[:8], Step: 1000}, n)
	}
	// the client asks where to go on until it is done
	for i := 0; i < 3; i++ {
		if _, cur = a.at(path); cur < 0 {
			verifrt.Assert(failed, "an upload can be continued")
			continue
		}
		r = a.part(path, cur, &service.VerifReader{Data: data[cur:], Step: 1000}, n-cur)
		if r.Code == 200 {
			break
		}
		verifrt.Assert(failed, "an upload is finished")
		verifrt.Assert(r.Code >= 400, "a failed part is an error")
	}
	if r.Code == 200 {
		verifrt.Assert(len(a.m.Vers) == 1, "a finished upload is an object")
		verifrt.Reach("finished")
	}
	if len(a.m.Vers) > 0 {
		a.w.Fault, a.m.Fail = nil, nil
		a.check(data, "1")
	}
	if !failed {
		verifrt.Reach("no failure")
	}
}

// The checksum of an upload is validated if configured.
//
//gosym:harness C20 quick=40s thorough=300s
func VerifC20Checksum() {
	verifrt.Terminates(3000000)
	a := zzBig(3, 4)
	pool.Config.Object.Checksum = true
	n := []int{1, 19}[verifrt.Choice("size", 2)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 3)
	}
	sent := append([]byte{}, data...)
	k := verifrt.Choice("changed", n+1)
	if k < n {
		sent[k] ^= byte(1 << verifrt.Choice("bit", 2))
	}
	r := a.start(n, crypto.SHA256(data), verifrt.Choice("compress", 2) == 1)
	verifrt.Assert(r.Code == 201, "an upload is started")
	path := r.Head.Get("Location")
	cur := 0
	if n > 8 && verifrt.Choice("in parts", 2) == 1 {
		cur = 8
		verifrt.Assert(a.part(path, 0, &service.VerifReader{Data: sent[:8], Step: 1000}, n).Code == 206, "a part is uploaded")
	}
	r = a.part(path, cur, &service.VerifReader{Data: sent[cur:], Step: 1000}, n-cur)
	if k == n {
		verifrt.Assert(r.Code == 200, "an upload with the right checksum is accepted")
		a.check(data, "1")
		verifrt.Reach("accepted")
	} else {
		verifrt.Assert(r.Code == 403 && len(a.m.Vers) == 0, "an upload with a wrong checksum is refused")
		for _, s := range a.w.Servers {
			verifrt.Assert(len(s.Objects) == 0, "a refused upload leaves no object")
		}
		verifrt.Reach("refused")
	}
	verifrt.Assert(a.clean(), "an ended upload leaves nothing")
}

// An upload of content which is stored is finished at once, to the same bytes.
//
//gosym:harness C20 quick=60s thorough=300s
func VerifC20Again() {
	verifrt.Terminates(3000000)
	a := zzBig(4, 4)
	n := []int{1, 19}[verifrt.Choice("size", 2)]
	data := service.VerifContent(n)
	compress := verifrt.Choice("compress", 2) == 1
	r := a.start(n, "D", compress)
	r = a.part(r.Head.Get("Location"), 0, &service.VerifReader{Data: data, Step: 1000}, n)
	verifrt.Assert(r.Code == 200, "an object is uploaded")
	v := a.m.Vers[0]
	lost := verifrt.Choice("lost", 4)
	if lost > 0 {
		delete(a.w.Servers[v.Locate[lost-1]].Objects, v.Hash+"."+strconv.Itoa(lost-1))
	}
	digest, compress2 := "D", compress
	differ := verifrt.Choice("differ", 4)
	switch differ {
	case 1:
		digest = "E"
	case 2:
		compress2 = !compress
	case 3:
		pool.Config.Object.ReedSolomon.ParityShards = 2
	}
	r = a.start(n, digest, compress2)
	if differ == 0 && lost == 0 {
		verifrt.Assert(r.Code == 200 && len(a.m.Vers) == 2, "stored content is not uploaded again")
		verifrt.Assert(a.clean(), "nothing is begun for stored content")
		verifrt.Reach("at once")
	} else {
		verifrt.Assert(r.Code == 201 && len(a.m.Vers) == 1, "other content is uploaded")
		r = a.part(r.Head.Get("Location"), 0, &service.VerifReader{Data: data, Step: 1000}, n)
		verifrt.Assert(r.Code == 200 && len(a.m.Vers) == 2, "an object is uploaded")
		verifrt.Reach("uploaded")
	}
	a.check(data, "2")
	a.read(data, "1")
}

// Servers keep any part of what they were sent: an upload goes on from where all of them are, or it has to begin again.
//
//gosym:harness C20 quick=60s thorough=300s
func VerifC20Cut() {
	verifrt.Terminates(3000000)
	a := zzBig(3, 4)
	n := []int{19, 25}[verifrt.Choice("size", 2)]
	data := service.VerifContent(n)
	r := a.start(n, "D", false)
	verifrt.Assert(r.Code == 201, "an upload is started")
	path := r.Head.Get("Location")
	sent := []int{8, 16, n}[verifrt.Choice("sent", 3)]
	if sent == n { // everything is sent but not known to be
		a.m.Fail = func(op string) error {
			if op == "save" {
				return errors.New("metadata failed")
			}
			return nil
		}
	}
	r = a.part(path, 0, &service.VerifReader{Data: data[:sent], Step: 1000}, sent)
	verifrt.Assert((sent < n) == (r.Code == 206), "a part is uploaded")
	a.m.Fail = nil
	same := verifrt.Choice("the same", 2) == 1
	k := 0
	for i, s := range []int{0, 1, 2} {
		for _, t := range a.w.At(s).Temps {
			if i == 0 || !same {
				k = []int{0, 3, 4, 7, 8, 99}[verifrt.Choice("kept", 6)]
			}
			if k < len(t.Data) {
				t.Data = t.Data[:k]
			}
		}
	}
	_, cur := a.at(path)
	if cur < 0 {
		verifrt.Reach("broken")
		return
	}
	verifrt.Assert(cur <= sent, "no more is kept of an upload than was sent")
	r = a.part(path, cur, &service.VerifReader{Data: data[cur:], Step: 1000}, n-cur)
	if len(a.m.Vers) > 0 {
		a.check(data, "1")
		verifrt.Reach("finished")
	} else {
		verifrt.Assert(r.Code != 200, "a failed part is an error")
		verifrt.Reach("failed")
	}
}
