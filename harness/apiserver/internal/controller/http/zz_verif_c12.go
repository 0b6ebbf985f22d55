package http

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/componet/auth/credential"
	"apiserver/internal/usecase/pool"
	"common/cst"
	"common/registry"
	"common/util"
	"common/verifrt"
	"common/verifrt/ginm"
	"common/verifrt/httpm"
	"common/verifrt/jsonm"
	_ "common/verifrt/yamlm"
	"context"
	"encoding/base64"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/gin-gonic/gin"
)

// zzRec tells what the handlers do.
type zzRec struct {
	usecase.IMetaService
	usecase.IObjectService
	calls []string // "bucket/name"
}

func (z *zzRec) did(bucket, name string) error {
	z.calls = append(z.calls, bucket+"/"+name)
	return usecase.ErrNotFound
}

func (z *zzRec) GetMetadata(name, bucket string, ver int32, extra bool) (*entity.Metadata, error) {
	return nil, z.did(bucket, name)
}
func (z *zzRec) StoreObject(req *entity.PutReq, md *entity.Metadata) (int32, error) {
	return 0, z.did(md.Bucket, md.Name)
}
func (z *zzRec) Get(n string) (*entity.Bucket, error) { return nil, z.did(n, "") }
func (z *zzRec) Update(b *entity.Bucket) error        { return z.did(b.Name, "") }
func (z *zzRec) Create(b *entity.Bucket) error        { return z.did(b.Name, "") }
func (z *zzRec) Delete(n string) error                { return z.did(n, "") }

// zzHook is the service that decides about access.
type zzHook struct {
	code  int // 0: away
	asked []map[string]string
	query []string
	bad   bool
	open  int
}

type zzHookBody struct {
	io.Reader
	h    *zzHook
	done bool
}

func (b *zzHookBody) Close() error {
	if !b.done {
		b.done = true
		b.h.open--
	}
	return nil
}

func (h *zzHook) trip(r *http.Request) (*http.Response, error) {
	b, err := io.ReadAll(r.Body)
	m := jsonm.Text(b)
	if err != nil || m == nil || r.Method != "POST" || r.URL.Host != "hook" {
		h.bad = true
	}
	h.asked = append(h.asked, m)
	h.query = append(h.query, r.URL.RawQuery)
	if h.code == 0 {
		return nil, errors.New("connection refused")
	}
	res := httpm.Response(h.code, nil, nil)
	h.open++
	res.Body = &zzHookBody{strings.NewReader("{}"), h, false}
	res.Request = r
	return res, nil
}

type zzAuth struct {
	h    http.Handler
	rec  *zzRec
	hook *zzHook
	etcd *registry.VerifEtcd
}

func zzDoor() *zzAuth {
	gin.SetMode(gin.ReleaseMode)
	z := &zzAuth{rec: &zzRec{}, hook: &zzHook{}, etcd: registry.VerifNewEtcd()}
	pool.Config = &config.Config{}
	pool.Etcd = z.etcd.Client()
	http.DefaultTransport = httpm.Transport(z.hook.trip)
	return z
}

func (z *zzAuth) build() { z.h = NewHttpServer("0", z.rec, z.rec, z.rec).Handler }

func (z *zzAuth) keep(user, pwd string) {
	bt, err := util.EncodeMsgp(&credential.AdminCredential{Username: user, Password: pwd})
	verifrt.Assert(err == nil, "a credential is encoded")
	_, err = z.etcd.Put(context.Background(), cst.EtcdPrefix.ApiCredential, string(bt))
	verifrt.Assert(err == nil, "a credential is kept")
}

type zzRoute struct{ method, path, name, does string }

var zzRoutes = []zzRoute{
	{"PUT", "/v1/objects/o", "o", "b/o"},
	{"GET", "/v1/objects/o", "o", "b/o"},
	{"POST", "/v1/big/o", "o", "b/"},
	{"GET", "/v1/metadata/o", "o", "b/o"},
	{"GET", "/v1/bucket/o", "o", "o/"},
	{"PUT", "/v1/bucket/o", "o", "o/"},
	{"DELETE", "/v1/bucket/o", "o", "o/"},
	{"POST", "/v1/bucket", "", "o/"},
	{"GET", "/v1/security/check", "", ""},
}

// do sends a request and tells if it was let through.
func (z *zzAuth) do(rt zzRoute, bucket, host, basic string) (*ginm.Writer, bool) {
	head := map[string]string{"digest": "D", "size": "10"}
	if bucket != "" {
		head["bucket"] = bucket
	}
	if basic != "" {
		head["Authorization"] = basic
	}
	var body io.Reader
	var size int64
	switch {
	case rt.does == "o/" && (rt.method == "PUT" || rt.method == "POST"):
		body = ginm.JSONBody(&entity.Bucket{Name: "o"})
	case rt.method == "PUT":
		body, size = strings.NewReader("abc"), 3
	}
	z.rec.calls = nil
	w := ginm.DoHost(z.h, rt.method, host, rt.path, "version=2", head, body, size)
	if rt.does == "" {
		return w, w.Code == 200
	}
	return w, len(z.rec.calls) > 0
}

func zzBasic(s string) string {
	return "Basic " + base64.StdEncoding.EncodeToString([]byte(s))
}

// Every request to the API is let through by the callback or the credential, or not at all.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with common/registry/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:harness C12 quick=100s thorough=600s
func VerifC12Requests() {
	z := zzDoor()
	au := &pool.Config.Auth
	au.Callback.Url, au.Callback.Params = "http://hook/x", []string{"Key"}
	au.Enable = verifrt.Choice("enable", 2) == 1
	au.Callback.Enable = verifrt.Choice("callback", 2) == 1
	au.Password.Enable = verifrt.Choice("password", 2) == 1
	z.build()
	rt := zzRoutes[verifrt.Choice("route", len(zzRoutes))]
	bucket, host, named := "b", "h", "b"
	if au.Callback.Enable {
		z.hook.code = []int{200, 204, 302, 401, 500, 0}[verifrt.Choice("answer", 6)]
		host = []string{"h", "c.example:80", ".x"}[verifrt.Choice("host", 3)]
		if verifrt.Choice("no bucket", 2) == 1 {
			bucket, named = "", ""
			if host == "c.example:80" {
				named = "c"
			}
		}
	}
	same := false
	basic := ""
	if au.Password.Enable {
		user, pwd := verifrt.AnyString("user", 1), verifrt.AnyString("password", verifrt.Bound("password length", 1, 2))
		kind := verifrt.Choice("credential", 3)
		if kind > 0 {
			z.keep(user, pwd)
		}
		basic = []string{"", zzBasic("u:p"), zzBasic("u:pq"), zzBasic(":"), zzBasic("up"), "Bearer u:p", "Basic u:p"}[verifrt.Choice("basic", 7)]
		if kind == 1 {
			z.etcd.GetErrs = 1
		}
		is := func(u, p string) bool { return verifrt.And(verifrt.EqString(user, u), verifrt.EqString(pwd, p)) }
		if kind == 2 {
			switch basic {
			case zzBasic("u:p"):
				same = is("u", "p")
			case zzBasic("u:pq"):
				same = is("u", "pq")
			}
		}
	}
	w, through := z.do(rt, bucket, host, basic)
	may := !au.Enable || same
	if au.Callback.Enable && named != "" && z.hook.code == 200 {
		may = true
	}
	if through {
		verifrt.Assert(may, "nobody gets in who may not")
		if rt.does != "" {
			verifrt.Assert(len(z.rec.calls) == 1 && z.rec.calls[0] == rt.does, "the request acts on what it names")
		}
		verifrt.Reach("through")
	} else {
		// a bucket must be named where the handler needs one
		needs := bucket == "" && strings.HasPrefix(rt.does, "b")
		verifrt.Assert(verifrt.Or(needs, verifrt.Not(may)), "everybody gets in who may")
		verifrt.Assert(w.Code >= 400, "a denied request is not answered as a success")
		verifrt.Reach("denied")
	}
	verifrt.Assert(!z.hook.bad, "the callback is asked properly")
	for _, m := range z.hook.asked {
		verifrt.Assert(m["bucket"] == named && m["file_name"] == rt.name && m["method"] == rt.method && m["version"] == "2",
			"the callback is told what is accessed")
		verifrt.Assert(named == "b" || bucket == "", "the callback is told the bucket that the handlers use")
	}
	if through && au.Enable {
		verifrt.Assert(verifrt.Or(same, len(z.hook.asked) > 0), "the callback is asked")
	}
	verifrt.Assert(z.hook.open == 0, "answers of the callback are closed")
}

// The credential of the configuration is kept once, whatever etcd answers.
//
//gosym:harness C12 quick=40s thorough=120s
func VerifC12Credential() {
	z := zzDoor()
	au := &pool.Config.Auth
	au.Enable, au.Password.Enable = true, true
	user, pwd := verifrt.AnyString("user", 1), verifrt.AnyString("password", 1)
	exist := verifrt.Choice("credential exists", 2) == 1
	if exist {
		z.keep(user, pwd)
	}
	z.etcd.GetErrs = verifrt.Choice("etcd fails", 2)
	fails := z.etcd.GetErrs > 0
	conf := verifrt.Choice("configured", 2) == 1
	if conf {
		au.Password.Username, au.Password.Password = "u", "p"
	}
	z.build()
	in := func(basic string) bool { _, ok := z.do(zzRoutes[8], "b", "h", basic); return ok }
	verifrt.Assert(!in(""), "nobody gets in without a credential")
	is := func(u, p string) bool {
		return verifrt.And(exist, verifrt.And(verifrt.EqString(user, u), verifrt.EqString(pwd, p)))
	}
	want := is("u", "p")
	if !exist && conf && !fails {
		want = true
	}
	verifrt.Assert(in(zzBasic("u:p")) == want, "the credential that was kept first is valid")
	verifrt.Assert(!in(zzBasic(":")), "an empty credential is not valid")
	verifrt.Reach("checked")
}

// Uploads are continued in the bucket which the callback allows.
//
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c20.go
//gosym:with apiserver/internal/controller/http/zz_verif_c20.go
//gosym:harness C12 quick=60s thorough=120s
func VerifC12Upload() {
	a := zzBig(3, 4)
	hook := &zzHook{code: 200}
	http.DefaultTransport = httpm.Transport(hook.trip)
	r := a.start(5, "D", false)
	verifrt.Assert(r.Code == 201, "an upload is started")
	path := r.Head.Get("Location")
	au := &pool.Config.Auth
	au.Enable, au.Callback.Enable, au.Callback.Url = true, true, "http://hook/x"
	head := map[string]string{"Range": "bytes=0-"}
	own := verifrt.Choice("own bucket", 2) == 1
	name := "c"
	if own {
		name = "b"
	}
	host := "h"
	if verifrt.Choice("by host", 2) == 1 {
		host = name + ".h"
	} else {
		head["bucket"] = name
	}
	method := []string{"HEAD", "PATCH"}[verifrt.Choice("method", 2)]
	w := ginm.DoHost(a.h, method, host, path, "", head, strings.NewReader("abcde"), 5)
	verifrt.Drain()
	verifrt.Assert(len(hook.asked) > 0 && hook.asked[0]["bucket"] == name, "the callback is asked")
	if own {
		verifrt.Assert(w.Code == 200, "an upload of the bucket goes on")
		verifrt.Assert(method == "HEAD" || len(a.m.Vers) == 1, "the object is stored")
	} else {
		verifrt.Assert(w.Code == 403 && len(a.m.Vers) == 0, "an upload of another bucket does not")
		for _, s := range a.w.Servers {
			for _, t := range s.Temps {
				verifrt.Assert(len(t.Data) == 0, "nothing is written")
			}
		}
	}
	verifrt.Reach("asked " + strconv.FormatBool(own))
}


// The configuration page tells no credentials, and leaves the configuration alone.
//
//gosym:harness C12 quick=40s thorough=60s
func VerifC12Config() {
	z := zzDoor()
	c := pool.Config
	secrets := []*string{&c.Etcd.Username, &c.Etcd.Password, &c.Auth.Password.Username, &c.Auth.Password.Password, &c.Log.Email.Password}
	z.build()
	show := func(set string) []byte {
		var vals []string
		for i, s := range secrets {
			*s = verifrt.AnyString(set+strconv.Itoa(i), 2)
			vals = append(vals, *s)
		}
		w := ginm.Do(z.h, "GET", "/config", "", nil, nil, 0)
		verifrt.Assert(w.Code == 200 && len(w.Body) > 0, "the configuration is shown")
		for i, s := range secrets {
			verifrt.Assert(verifrt.EqString(*s, vals[i]), "showing the configuration does not change it")
		}
		return w.Body
	}
	verifrt.Assert(verifrt.EqBytes(show("a"), show("b")), "the page does not depend on credentials")
	verifrt.Reach("shown")
}
