package http

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/repo"
	"apiserver/internal/usecase/service"
	"apiserver/internal/usecase/webapi"
	"common/proto/msg"
	"common/registry"
	"common/response"
	"common/verifrt"
	"common/verifrt/ginm"
	"common/verifrt/httpm"
	_ "common/verifrt/jsonm"
	"context"
	"encoding/json"
	"io"
	"metaserver/zzverif"
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/gin-gonic/gin"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// zzBoth is the etcd of a cluster: locations are asked through it, everything else is kept.
type zzBoth struct {
	clientv3.KV
	loc *service.VerifEtcd
}

func (z *zzBoth) Put(ctx context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	if strings.HasPrefix(key, "g/") {
		return z.KV.Put(ctx, key, val, opts...)
	}
	return z.loc.Put(ctx, key, val, opts...)
}

// zzEnd is an API server with a metadata server and object servers.
type zzEnd struct {
	*zzAPI
	node *zzverif.Node
	vers *repo.VersionRepo
	meta *repo.MetadataRepo
	buks *repo.BucketRepo
}

func zzFull(n, page int) *zzEnd {
	gin.SetMode(gin.ReleaseMode)
	ginm.Marshal = json.Marshal
	w := service.VerifWorld(n, page)
	z := &zzEnd{vers: repo.NewVersionRepo(), meta: repo.NewMetadataRepo(), buks: repo.NewBucketRepo()}
	kv := zzverif.KV()
	z.node = zzverif.Serve(kv, "m1", "0-16384")
	pool.Config.Registry.Group, pool.Config.Discovery.MetaServName = "g", "meta"
	objs := map[string]string{}
	for i := 0; i < n; i++ {
		objs["o"+strconv.Itoa(i)] = w.At(i).Host
	}
	pool.Discovery = registry.VerifDiscovery(map[string]map[string]string{
		service.VerifServName: objs, "meta": {"m1_master": z.node.Addr()}})
	cli, loc := service.VerifEtcdClient(w)
	cli.KV = &zzBoth{kv, loc}
	pool.Etcd = cli
	webapi.VerifTransport(httpm.Transport(func(r *http.Request) (*http.Response, error) {
		if r.URL.Host == z.node.Addr() {
			return z.node.RoundTrip(r)
		}
		return w.Serve(r)
	}))
	m := service.NewMetaService(z.meta, z.vers)
	z.zzAPI = &zzAPI{NewHttpServer("0", service.NewObjectService(m, z.buks, cli), m, z.buks).Handler, w, nil}
	return z
}

func zzSame(v *entity.Version, m *msg.Version) bool {
	if len(v.Locate) != len(m.Locate) {
		return false
	}
	ok := verifrt.And(v.Compress == m.Compress, verifrt.And(int64(v.StoreStrategy) == int64(m.StoreStrategy), v.Size == m.Size))
	ok = verifrt.And(ok, verifrt.And(int64(v.DataShards) == int64(m.DataShards), int64(v.ParityShards) == int64(m.ParityShards)))
	ok = verifrt.And(ok, verifrt.And(int64(v.ShardSize) == m.ShardSize, verifrt.And(uint64(v.Sequence) == m.Sequence, v.Ts == m.Ts)))
	ok = verifrt.And(ok, verifrt.EqString(v.Hash, m.Hash))
	for i := range v.Locate {
		ok = verifrt.And(ok, verifrt.EqString(v.Locate[i], m.Locate[i]))
	}
	return ok
}

func zzVersion(n string) *entity.Version {
	num := func(k string, max int) int {
		i := verifrt.AnyInt(n + k)
		verifrt.Assume(i > 0)
		verifrt.Assume(i <= max)
		return i
	}
	return &entity.Version{Compress: verifrt.AnyBool(n + "compress"), StoreStrategy: entity.ObjectStrategy(num("strategy", 2)),
		DataShards: num("data", 100), ParityShards: num("parity", 100), ShardSize: num("shard", 100), Size: int64(num("size", 100)),
		Hash: verifrt.AnyString(n+"hash", 2), Locate: []string{"l0", verifrt.AnyString(n+"locate", 2)}}
}

// Versions are told to the metadata server and back without a change, and failures by their status.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:with metaserver/zzverif/zz_verif_node.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_world.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_serve.go
//gosym:with metaserver/internal/usecase/raftimpl/zz_verif_support.go
//gosym:with metaserver/config/zz_verif_support.go
//gosym:harness C34 quick=60s thorough=300s
func VerifC34Versions() {
	z := zzFull(1, 4)
	_, err := z.meta.FindByName("a", "b", true)
	verifrt.Assert(response.CheckErrStatus(404, err), "metadata which is missing is told so")
	_, err = z.vers.Find("a", "b", 1)
	verifrt.Assert(response.CheckErrStatus(404, err), "a version which is missing is told so")
	_, err = z.vers.Add("a", "b", zzVersion("early "))
	verifrt.Assert(response.CheckErrStatus(404, err), "no version is added to missing metadata")
	verifrt.Assert(z.meta.Insert(&entity.Metadata{Name: "a", Bucket: "b"}) == nil, "metadata is saved")
	verifrt.Assert(z.meta.Insert(&entity.Metadata{Name: "a", Bucket: "b"}) == usecase.ErrMetadataExists, "metadata which exists is told so")
	var all []*entity.Version
	for i := 0; i < verifrt.Bound("versions", 2, 2); i++ {
		v := zzVersion(strconv.Itoa(i) + " ")
		n, err := z.vers.Add("a", "b", v)
		verifrt.Assert(err == nil && int(n) == i+1 && v.Sequence == n, "versions are numbered in order")
		all = append(all, v)
	}
	verifrt.Advance(5e6)
	m, err := z.meta.FindByName("a", "b", true)
	verifrt.Assert(err == nil && m.Name == "a" && m.Bucket == "b" && m.Total == 2 && m.FirstVersion == 1 && m.Extra.LastVersion == 2, "metadata is read as it is")
	switch verifrt.Choice("change", 4) {
	case 1:
		i := verifrt.Choice("which", 2)
		n := zzVersion("new ")
		n.Sequence, n.Hash = all[i].Sequence, all[i].Hash
		verifrt.Assert(z.vers.Update("a", "b", n) == nil, "a version is updated")
		all[i] = n
	case 2:
		i := verifrt.Choice("which", 2)
		verifrt.Assert(z.vers.Delete("a", "b", all[i].Sequence) == nil, "a version is removed")
		all[i] = nil
	case 3:
		n := zzVersion("new ")
		n.Sequence = 7
		verifrt.Assert(response.CheckErrStatus(404, z.vers.Update("a", "b", n)), "a missing version is not updated")
	}
	for i, v := range all {
		got, err := z.vers.Find("a", "b", int32(i+1))
		if v == nil {
			verifrt.Assert(response.CheckErrStatus(404, err), "a removed version is gone")
			continue
		}
		verifrt.Assert(err == nil, "a version is read")
		raw, err := z.node.Version("b/a", i+1)
		verifrt.Assert(err == nil && zzSame(got, raw), "a version is read as it is kept")
		v.Sequence, v.Ts = got.Sequence, got.Ts
		verifrt.Assert(zzSame(v, raw), "a version is kept as it was sent")
	}
	verifrt.Reach("checked")
}

func zzBucket(n string, full bool) *entity.Bucket {
	num := func(k string, max int) int {
		i := verifrt.AnyInt(n + k)
		verifrt.Assume(i > 0)
		verifrt.Assume(i <= max)
		return i
	}
	b := &entity.Bucket{Compress: true}
	if full {
		b.Versioning, b.Readonly, b.Compress = verifrt.AnyBool(n+"versioning"), verifrt.AnyBool(n+"readonly"), verifrt.AnyBool(n+"compress")
		b.StoreStrategy, b.DataShards = entity.ObjectStrategy(num("strategy", 2)), num("data", 100)
		b.ParityShards, b.VersionRemains = num("parity", 100), num("remains", 100)
		b.Policies = []string{"p", verifrt.AnyString(n+"policy", 2)}
	}
	return b
}

func zzSameBucket(b *entity.Bucket, m *msg.Bucket) bool {
	if len(b.Policies) != len(m.Policies) || b.Name != m.Name {
		return false
	}
	ok := verifrt.And(b.Versioning == m.Versioning, verifrt.And(b.Readonly == m.Readonly, b.Compress == m.Compress))
	ok = verifrt.And(ok, verifrt.And(int64(b.StoreStrategy) == int64(m.StoreStrategy), int64(b.VersionRemains) == int64(m.VersionRemains)))
	ok = verifrt.And(ok, verifrt.And(int64(b.DataShards) == int64(m.DataShards), int64(b.ParityShards) == int64(m.ParityShards)))
	for i := range b.Policies {
		ok = verifrt.And(ok, verifrt.EqString(b.Policies[i], m.Policies[i]))
	}
	return ok
}

// Buckets of any name are created, updated and removed at the metadata server, and no others.
//
//gosym:harness C34 quick=150s thorough=600s
func VerifC34Buckets() {
	z := zzFull(1, 4)
	names := []string{"b", "a?b", "a#b", "a%2Fb", "a b+c", "\u00e9", "a/b+c", "a;b=c", "..", "list"}
	name := names[verifrt.Choice("name", len(names))]
	other := &entity.Bucket{Name: "a", Versioning: true, DataShards: 3, VersionRemains: 7}
	verifrt.Assert(z.buks.Create(other) == nil, "a bucket is created")
	_, err := z.buks.Get(name)
	verifrt.Assert(response.CheckErrStatus(404, err), "a bucket which is missing is told so")
	b := zzBucket("first ", false)
	b.Name = name
	verifrt.Assert(z.buks.Create(b) == nil, "a bucket is created")
	verifrt.Assert(z.buks.Create(b) != nil, "a bucket which exists is not created")
	verifrt.Advance(5e6)
	exists := true
	for i := 0; i < verifrt.Bound("changes", 2, 2); i++ {
		switch verifrt.Choice("change", 3) {
		case 1:
			n := zzBucket("new "+strconv.Itoa(i), i == 0)
			n.Name = name
			err := z.buks.Update(n)
			verifrt.Assert((err == nil) == exists && (exists || response.CheckErrStatus(404, err)), "a bucket which exists is updated")
			b = n
			verifrt.Advance(5e6)
		case 2:
			err := z.buks.Delete(name)
			verifrt.Assert(err == nil, "a bucket is removed")
			exists = false
		}
	}
	got, err := z.buks.Get(name)
	if exists {
		verifrt.Assert(err == nil, "a bucket is read")
		raw, err := z.node.Bucket(name)
		verifrt.Assert(err == nil && zzSameBucket(got, raw) && got.CreateTime == raw.CreateTime && got.UpdateTime == raw.UpdateTime, "a bucket is read as it is kept")
		verifrt.Assert(zzSameBucket(b, raw), "a bucket is kept as it was sent")
	} else {
		verifrt.Assert(response.CheckErrStatus(404, err), "a removed bucket is gone")
	}
	raw, err := z.node.Bucket("a")
	verifrt.Assert(err == nil && zzSameBucket(other, raw), "other buckets stay as they are")
	verifrt.Reach("checked")
}

// Buckets are managed by the API.
//
//gosym:harness C34 quick=30s thorough=100s
func VerifC34BucketAPI() {
	z := zzFull(1, 4)
	api := func(method, path string, body any) *ginm.Writer {
		var r io.Reader
		if body != nil {
			r = ginm.JSONBody(body)
		}
		w := ginm.Do(z.h, method, "/v1/bucket"+path, "", nil, r, -1)
		verifrt.Drain()
		return w
	}
	b := zzBucket("first ", true)
	b.Name = "b"
	verifrt.Assert(api("GET", "/b", nil).Code == 404, "a bucket which is missing is told so")
	verifrt.Assert(api("POST", "", b).Code == 201, "a bucket is created")
	raw, err := z.node.Bucket("b")
	verifrt.Assert(err == nil && zzSameBucket(b, raw), "a bucket is kept as it was sent")
	verifrt.Assert(api("POST", "", b).Code/100 == 4, "a bucket which exists is not created")
	verifrt.Assert(api("POST", "", &entity.Bucket{}).Code == 400, "a bucket needs a name")
	verifrt.Advance(5e6)
	switch verifrt.Choice("change", 3) {
	case 1:
		n := zzBucket("new ", true)
		n.Name = "c" // the path tells the name
		verifrt.Assert(api("PUT", "/b", n).Code == 200, "a bucket is updated")
		b, n.Name = n, "b"
		verifrt.Assert(api("PUT", "/c", n).Code == 404, "a bucket which is missing is told so")
		b.Name = "b"
	case 2:
		verifrt.Assert(api("DELETE", "/b", nil).Code == 204, "a bucket is removed")
		verifrt.Assert(api("GET", "/b", nil).Code == 404, "a removed bucket is gone")
		return
	}
	r := api("GET", "/b", nil)
	var got entity.Bucket
	verifrt.Assert(r.Code == 200 && json.Unmarshal(r.Body, &got) == nil, "a bucket is read")
	raw, err = z.node.Bucket("b")
	verifrt.Assert(err == nil && zzSameBucket(b, raw) && zzSameBucket(&got, raw) && got.CreateTime == raw.CreateTime, "a bucket is read as it is kept")
	verifrt.Reach("checked")
}


// Objects that are uploaded, lost in part, repaired and replaced are at the metadata server what they are.
//
//gosym:with apiserver/internal/controller/http/zz_verif_c20.go
//gosym:with apiserver/internal/controller/http/zz_verif_c21.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c20.go
//gosym:harness C34 quick=150s thorough=600s
func VerifC34Objects() {
	z := zzFull(4, 4)
	pool.Config.Object.DistinctTimeout = 30 * time.Millisecond
	b := &entity.Bucket{Name: "b", Versioning: verifrt.Choice("versioning", 2) == 1, VersionRemains: 2}
	verifrt.Assert(z.buks.Create(b) == nil, "a bucket is created")
	max := 1
	if b.Versioning {
		max = 2
	}
	type kept struct {
		n    int
		data []byte
	}
	var all []kept
	last := 0
	for i := 0; i < verifrt.Bound("uploads", 3, 3); i++ {
		data := service.VerifContent(1 + 9*i)
		ss := 1
		if i > 0 {
			ss = 1 + verifrt.Choice("strategy", 3)
		}
		var r *ginm.Writer
		if ss == 3 {
			r = z.zzUp(data, strconv.Itoa(i), false)
		} else {
			r = z.zzPut(data, strconv.Itoa(i), "ss="+strconv.Itoa(ss))
		}
		verifrt.Assert(r.Code/100 == 2, "an object is stored")
		last++
		all = append(all, kept{last, data})
		if len(all) > max {
			all = all[len(all)-max:]
		}
		verifrt.Advance(5e6)
	}
	lost := 0
	if verifrt.Choice("lost", 2) == 1 { // a shard is lost, and repaired when the version is read
		k := all[verifrt.Choice("which", len(all))]
		lost = k.n
		v, err := z.node.Version("b/a.txt", k.n)
		verifrt.Assert(err == nil, "a version is kept")
		i := verifrt.Choice("shard", len(v.Locate))
		delete(z.w.Servers[v.Locate[i]].Objects, v.Hash+"."+strconv.Itoa(i))
		z.read(k.data, strconv.Itoa(k.n))
		verifrt.Reach("repaired")
	}
	m, err := z.node.Metadata("b/a.txt")
	verifrt.Assert(err == nil && m.Name == "a.txt" && m.Bucket == "b" && m.Extra.Total == len(all), "as many versions are kept as the bucket wants")
	verifrt.Assert(m.Extra.FirstVersion == all[0].n && m.Extra.LastVersion == last, "the last versions are kept")
	for _, k := range all {
		v, err := z.node.Version("b/a.txt", k.n)
		verifrt.Assert(err == nil && int(v.Size) == len(k.data) && len(v.Locate) == int(v.DataShards+v.ParityShards), "a version is kept")
		for i, host := range v.Locate {
			s := z.w.Servers[host]
			if k.n == lost && v.StoreStrategy == 2 {
				continue // lost copies are not missed as long as others can be read
			}
			verifrt.Assert(s != nil && s.Objects[v.Hash+"."+strconv.Itoa(i)] != nil, "shards are where the version tells")
		}
		z.read(k.data, strconv.Itoa(k.n))
	}
	z.read(all[len(all)-1].data, "")
	verifrt.Assert(z.get("", strconv.Itoa(last+1)).Code == 404, "there is no other version")
	if last > max {
		verifrt.Assert(z.get("", strconv.Itoa(last-max)).Code == 404, "versions beyond the limit are gone")
	}
	verifrt.Reach("checked")
}
