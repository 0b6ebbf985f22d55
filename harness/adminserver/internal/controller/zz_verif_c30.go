package controller

import (
	"adminserver/internal/entity"
	"adminserver/internal/usecase/logic"
	"adminserver/internal/usecase/webapi"
	"common/proto/msg"
	"common/verifrt"
	"common/verifrt/ginm"
	"encoding/json"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
)

func zzList[T any](w *ginm.Writer) []T {
	var l []T
	if verifrt.Symbolic() {
		l, _ = ginm.Last.([]T)
		return l
	}
	verifrt.Assert(json.Unmarshal(w.Body, &l) == nil, "a list is answered")
	return l
}

// Turning the pages of objects or buckets shows everything that masters hold, once and in order.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C30 quick=60s thorough=600s
func VerifC30Pages() {
	n := verifrt.Bound("items", 3, 4)
	keys := make([]string, n)
	bucket := make([]string, n)
	buckets := verifrt.Choice("buckets", 2) == 1
	for i := range keys {
		if buckets {
			bucket[i] = verifrt.AnyString("bucket", 1+verifrt.Choice("length", 2))
			for j := 0; j < len(bucket[i]); j++ {
				c := bucket[i][j]
				verifrt.Assume(verifrt.And(verifrt.And(c > ' ', c != '/'), c < 127))
			}
			keys[i] = bucket[i]
		} else {
			bucket[i] = []string{"b", "b-x", "b%d", "b1"}[verifrt.Choice("bucket", 4)]
			keys[i] = bucket[i] + "/" + string(rune('a'+i))
		}
		for j := 0; j < i; j++ {
			verifrt.Assume(keys[i] != keys[j])
		}
	}
	on := make([]int, n)
	for i := range on {
		on[i] = verifrt.Choice("server", 2)
	}
	z := zzNew(map[string]map[string]string{"meta": {"m0": "10.0.0.1:80", "m1_master": "10.0.0.2:80", "m2_slave": "10.0.0.3:80"}})
	down := verifrt.Choice("down", 4) // 0, 1: this server, 2: refuses, 3: none
	z.serve = func(r *http.Request) *http.Response {
		at := int(r.URL.Host[7] - '1')
		if at == down {
			return nil
		}
		if down == 2 && at == 1 {
			return z.answer(500, nil, []byte("{}"), false)
		}
		at %= 2 // the slave holds what its master does
		verifrt.Assert(r.URL.Path == "/metadata/list" && !buckets || r.URL.Path == "/bucket/list" && buckets, "the list is asked for")
		size, err := strconv.Atoi(r.URL.Query().Get("page_size"))
		verifrt.Assert(err == nil && size > 0, "the size of the page is given")
		prefix := r.URL.Query().Get("prefix")
		var mine []int
		for i := range keys {
			if on[i] == at && strings.HasPrefix(keys[i], prefix) {
				mine = append(mine, i)
			}
		}
		sort.Slice(mine, func(a, b int) bool { return keys[mine[a]] < keys[mine[b]] })
		total := len(mine)
		if len(mine) > size {
			mine = mine[:size]
		}
		var b []byte
		if buckets {
			l := []*msg.Bucket{}
			for _, i := range mine {
				l = append(l, &msg.Bucket{Name: bucket[i]})
			}
			b, err = json.Marshal(l)
		} else {
			l := []*msg.Metadata{}
			for _, i := range mine {
				l = append(l, &msg.Metadata{Bucket: bucket[i], Name: string(rune('a' + i))})
			}
			b, err = json.Marshal(l)
		}
		verifrt.Assert(err == nil, "a list is encoded")
		return z.answer(200, map[string]string{"X-Total-Count": strconv.Itoa(total)}, b, false)
	}
	size := 1 + verifrt.Choice("size", n)
	var seen []string
	for page := 1; page <= n+1; page++ {
		path := "/metadata/page"
		if buckets {
			path = "/metadata/buckets"
		}
		w := z.do("GET", path, "page="+strconv.Itoa(page)+"&pageSize="+strconv.Itoa(size), nil)
		if down < 3 {
			verifrt.Assert(w.Code >= 400, "a list that cannot be complete is an error")
			return
		}
		verifrt.Assert(w.Code == 200, "a page is answered")
		verifrt.Assert(w.Head.Get("X-Total-Count") == strconv.Itoa(n), "the total is that of all servers on every page")
		var got []string
		if buckets {
			for _, b := range zzList[*msg.Bucket](w) {
				got = append(got, b.Name)
			}
		} else {
			for _, m := range zzList[*msg.Metadata](w) {
				got = append(got, m.Bucket+"/"+m.Name)
			}
		}
		want := n - len(seen)
		if want > size {
			want = size
		}
		verifrt.Assert(len(got) == want, "a page is full unless it is the last")
		seen = append(seen, got...)
	}
	for i, s := range seen {
		in := false
		for _, k := range keys {
			in = verifrt.Or(in, s == k)
		}
		verifrt.Assert(in, "only what exists is shown")
		if i > 0 {
			verifrt.Assert(seen[i-1] < s, "the pages are in order and repeat nothing")
		}
	}
	verifrt.Assert(len(seen) == n, "the pages show everything")
}

// A command reaches the named server alone and is answered as it was by that server.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C30 quick=60s thorough=600s
func VerifC30Commands() {
	peers := []*zzPeer{zzListen(1), zzListen(2), zzListen(3), zzListen(4)}
	z := zzNew(map[string]map[string]string{
		"meta": {"m0_master": peers[0].addr, "m1_slave": peers[1].addr},
		"data": {"d0": peers[2].addr, "d1": peers[3].addr},
	})
	z.serve = func(r *http.Request) *http.Response { return nil }
	ids := []string{"m0", "m1", "d0", "d1", "zz"}
	for i := 0; i < verifrt.Bound("commands", 2, 3); i++ {
		for _, p := range peers {
			p.calls = nil
		}
		at := verifrt.Choice("server", len(ids))
		id, call := ids[at], ""
		ok := verifrt.Choice("ok", 2) == 1
		for _, p := range peers {
			p.ok = ok
			p.peers = []string{"m0"}
			if at == 0 {
				p.peers = []string{"m1"}
			}
		}
		var w *ginm.Writer
		serves, success := at < 2, 200
		kind := verifrt.Choice("command", 7)
		switch kind {
		case 0:
			other := verifrt.Choice("target", len(ids))
			body := &struct {
				SrcServerId  string   `json:"srcServerId" binding:"required"`
				DestServerId string   `json:"destServerId" binding:"required"`
				Slots        []string `json:"slots" binding:"required"`
			}{id, ids[other], []string{"0-5", "7-9"}}
			w = z.do("POST", "/metadata/migration", "", ginm.JSONBody(body))
			serves = at < 2 && other < 2
			if serves {
				call = "migrate 0-5,7-9 " + peers[other].addr
			}
		case 1:
			body := &struct {
				ServerId string `json:"serverId" binding:"required"`
			}{id}
			w, call = z.do("POST", "/metadata/leave_cluster", "", ginm.JSONBody(body)), "leaveCluster"
		case 2:
			body := &struct {
				ServerId string `json:"serverId" binding:"required"`
				MasterId string `json:"masterId" binding:"required"`
			}{id, "mm"}
			w, call = z.do("POST", "/metadata/join_leader", "", ginm.JSONBody(body)), "joinLeader mm"
		case 3:
			w, call = z.do("POST", "/objects/join/"+id, "", nil), "join"
			serves = at == 2 || at == 3
		case 4:
			w, call = z.do("POST", "/objects/leave/"+id, "", nil), "leave"
			serves = at == 2 || at == 3
		case 5:
			w, call = z.do("GET", "/metadata/peers", "serverId="+id, nil), "peers"
		case 6:
			w, call = z.do("GET", "/server/config", "serverId="+id, nil), "config"
			serves = at < 4
		}
		for j, p := range peers {
			if serves && j == at {
				verifrt.Assert(len(p.calls) == 1 && p.calls[0] == call, "the named server gets the command once")
			} else {
				verifrt.Assert(len(p.calls) == 0, "no other server gets a command")
			}
		}
		if !serves || !ok && kind < 5 {
			verifrt.Assert(w.Code >= 400, "a command that was not done is an error")
			continue
		}
		verifrt.Assert(w.Code == success, "a command that was done is a success")
		switch kind {
		case 5:
			l := zzList[*entity.ServerInfo](w)
			verifrt.Assert(len(l) == 2, "all peers are listed")
			for _, s := range l {
				verifrt.Assert(s.ServerID == "m0" && s.HttpAddr == peers[0].addr || s.ServerID == "m1" && s.HttpAddr == peers[1].addr, "peers are listed with their addresses")
			}
			verifrt.Assert(l[0].ServerID != l[1].ServerID, "peers are listed once")
		case 6:
			verifrt.Assert(string(w.Body) == "of "+peers[at].addr, "the configuration is that of the server")
		}
	}
	if verifrt.Symbolic() {
		verifrt.Assert(zzOpen <= len(peers), "connections are kept for later commands")
	}
}

// A request of the console reaches an API server with the names given and is answered as it was there.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C30 quick=60s thorough=600s
func VerifC30Requests() {
	apis := map[string]string{}
	if verifrt.Choice("servers", 2) == 1 {
		apis["a0"] = "10.0.0.1:80"
	}
	z := zzNew(map[string]map[string]string{"api": apis})
	name := verifrt.AnyString("name", 1+verifrt.Choice("length", verifrt.Bound("name", 1, 2)))
	for i := 0; i < len(name); i++ {
		verifrt.Assume(verifrt.And(name[i] > 0, name[i] < 128))
	}
	kind := verifrt.Choice("request", 6)
	code := []int{200, 201, 204, 404, 500}[verifrt.Choice("code", 5)]
	breaks := code == 200 && verifrt.Choice("breaks", 2) == 1
	away := verifrt.Choice("away", 2) == 1
	calls, good := 0, 200
	z.serve = func(r *http.Request) *http.Response {
		calls++
		if away || r.URL.Host != "10.0.0.1:80" {
			return nil
		}
		verifrt.Assert(r.Header.Get("Authorization") == "tok", "the credential is passed on")
		path, q, method := r.URL.Path, r.URL.RawQuery, "GET"
		switch kind {
		case 0:
			verifrt.Assert(path == "/v1/objects/"+name && q == "version=7" && r.Header.Get("Bucket") == "b", "the object asked for is read")
		case 1:
			verifrt.Assert(path == "/v1/metadata/"+name+"/versions" && q == "page=2&page_size=3" && r.Header.Get("Bucket") == "b", "the versions of the object are listed")
		case 2:
			method = "PUT"
			b, err := io.ReadAll(r.Body)
			verifrt.Assert(path == "/v1/objects/"+name && q == "" && r.Header.Get("Bucket") == "b" && r.Header.Get("Digest") == "sum", "the object is stored by its name")
			verifrt.Assert(err == nil && string(b) == "data" && r.ContentLength == 4, "the whole object is sent")
		case 3:
			method = "DELETE"
			verifrt.Assert(path == "/v1/bucket/"+name && q == "", "the bucket is deleted by its name")
		case 4:
			method = "PUT"
			verifrt.Assert(path == "/v1/bucket/"+name && q == "", "the bucket is updated by its name")
		case 5:
			verifrt.Assert(path == "/v1/security/check", "the credential is checked")
		}
		verifrt.Assert(r.Method == method, "the request has the right method")
		return z.answer(code, map[string]string{"X-Total-Count": "9"}, []byte("content"), breaks)
	}
	var err error
	var data []byte
	done := func() {}
	switch kind {
	case 0:
		var rd io.ReadCloser
		if rd, err = logic.NewObjects().Download(name, "b", 7, "tok"); err == nil {
			data, err = io.ReadAll(rd)
			rd.Close()
		}
	case 1:
		var total int
		data, total, err = logic.NewMetadata().VersionPaging(logic.MetadataCond{Name: name, Bucket: "b", Page: 2, PageSize: 3}, "tok")
		done = func() { verifrt.Assert(total == 9, "the total is passed on") }
	case 2:
		good = 201
		err = webapi.PutObjects(logic.SelectApiServer(), name, "sum", "b", strings.NewReader("data"), 4, "tok")
	case 3:
		good = 204
		err = webapi.DeleteBucket(logic.SelectApiServer(), name, "tok")
	case 4:
		err = webapi.UpdateBucket(logic.SelectApiServer(), &msg.Bucket{Name: name}, "tok")
	case 5:
		err = webapi.CheckToken(logic.SelectApiServer(), "tok")
	}
	for _, b := range z.bodies {
		verifrt.Assert(b.closed > 0, "the body of every answer is closed")
	}
	if len(apis) == 0 || away || code != good || kind < 2 && breaks {
		verifrt.Assert(err != nil, "a request that failed is an error")
		return
	}
	verifrt.Assert(err == nil && calls == 1, "a request that was done is a success")
	if kind < 2 {
		verifrt.Assert(string(data) == "content", "the answer is passed on whole")
		done()
	}
}

// A download is answered whole or given up.
//
//gosym:with adminserver/internal/controller/zz_verif_world.go
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:harness C30 quick=60s thorough=600s
func VerifC30Download() {
	z := zzNew(map[string]map[string]string{"api": {"a0": "10.0.0.1:80"}, "data": {"a1": "10.0.0.2:80"}})
	code := []int{200, 404, 500}[verifrt.Choice("code", 3)]
	data := "oops"
	if code == 200 {
		data = verifrt.AnyString("data", verifrt.Choice("size", 4))
	}
	breaks := verifrt.Choice("breaks", 2) == 1
	kind := verifrt.Choice("request", 3)
	z.serve = func(r *http.Request) *http.Response {
		verifrt.Assert(r.URL.Host == "10.0.0.1:80", "an API server is asked")
		return z.answer(code, map[string]string{"X-Total-Count": "5"}, []byte(data), breaks)
	}
	var w *ginm.Writer
	switch kind {
	case 0:
		w = z.do("GET", "/objects/download/a%20b", "bucket=b&version=2", nil)
	case 1:
		w = z.do("GET", "/metadata/versions", "name=a&bucket=b&page=1&pageSize=5", nil)
	case 2:
		w = z.do("GET", "/server/config", "serverId=a0", nil)
	}
	if code != 200 || breaks {
		verifrt.Assert(w.Abort || w.Code >= 400, "an answer that is not whole is an error or given up")
		return
	}
	verifrt.Assert(!w.Abort && w.Code == 200 && string(w.Body) == data, "the answer is passed on whole")
	if kind == 1 {
		verifrt.Assert(w.Head.Get("X-Total-Count") == "5", "the total is passed on")
	}
}
