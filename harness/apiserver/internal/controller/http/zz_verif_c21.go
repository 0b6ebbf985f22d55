package http

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/service"
	"common/verifrt"
	"common/verifrt/ginm"
	_ "common/verifrt/gobm"
	"strconv"
	"sync"
)

// zzUp uploads an object in parts of the whole.
func (a *zzAPI) zzUp(data []byte, digest string, compress bool) *ginm.Writer {
	r := a.start(len(data), digest, compress)
	if r.Code != 201 {
		return r
	}
	return a.part(r.Head.Get("Location"), 0, &service.VerifReader{Data: data, Step: 1000}, len(data))
}

func (a *zzAPI) zzPut(data []byte, digest, query string) *ginm.Writer {
	r := ginm.Do(a.h, "PUT", "/v1/objects/a.txt", query, map[string]string{"bucket": "b", "digest": digest}, &service.VerifReader{Data: data, Step: 1000}, int64(len(data)))
	verifrt.Drain()
	return r
}

// zzStored counts objects of all servers.
func (a *zzAPI) zzStored() int {
	n := 0
	for _, s := range a.w.Servers {
		n += len(s.Objects)
	}
	return n
}

// Objects are stored as their bucket wants.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:with apiserver/internal/usecase/service/zz_verif_etcd.go
//gosym:with apiserver/internal/usecase/service/zz_verif_c20.go
//gosym:with apiserver/internal/controller/http/zz_verif_c04.go
//gosym:with apiserver/internal/controller/http/zz_verif_c20.go
//gosym:harness C21 quick=60s thorough=300s
func VerifC21Store() {
	a := zzBig(4, 4)
	b := a.m.Bucket
	old := service.VerifContent(7)
	exists := verifrt.Choice("exists", 2)
	if exists == 1 {
		verifrt.Assert(a.zzPut(old, "O", "").Code == 201, "an object is stored")
	}
	before := a.zzStored()
	b.Readonly = verifrt.AnyBool("readonly")
	b.Compress = verifrt.AnyBool("bucket compresses")
	strategy := verifrt.Choice("bucket strategy", 3)
	b.StoreStrategy = entity.ObjectStrategy(strategy)
	b.DataShards, b.ParityShards = 1, 2
	if verifrt.Choice("shards", 2) == 1 {
		b.DataShards, b.ParityShards = 3, 1
	}
	compress, ss := verifrt.Choice("compress", 2) == 1, verifrt.Choice("request strategy", 3)
	data := service.VerifContent([]int{1, 19}[verifrt.Choice("size", 2)])
	big := verifrt.Choice("big", 2) == 1
	var r *ginm.Writer
	if big {
		verifrt.Assume(ss == 0 && strategy != 2) // such uploads are always erasure coded
		r = a.zzUp(data, "D", compress)
	} else {
		q := "compress=" + strconv.FormatBool(compress)
		if ss > 0 {
			q += "&ss=" + strconv.Itoa(ss)
		}
		r = a.zzPut(data, "D", q)
	}
	if b.Readonly {
		verifrt.Assert(r.Code == 400, "an upload to a readonly bucket is refused")
		verifrt.Assert(len(a.m.Vers) == exists && a.m.Exists == (exists == 1) && a.zzStored() == before && a.clean(), "nothing is stored in a readonly bucket")
		verifrt.Reach("refused")
		return
	}
	verifrt.Assert(r.Code == 200 || r.Code == 201, "an object is stored")
	verifrt.Assert(len(a.m.Vers) == exists+1, "an upload is a version")
	v := a.m.Vers[exists]
	verifrt.Assert(v.Compress == verifrt.Or(compress, b.Compress), "objects are compressed if the bucket or the request wants so")
	want := strategy // the bucket, the request, the size
	if want == 0 {
		want = ss
	}
	if want == 0 && !big {
		want = 2
	}
	if big {
		want = 1
	}
	ds, ps := 2, 1 // configured
	if strategy != 0 {
		ds, ps = b.DataShards, b.ParityShards
	}
	if want == 2 {
		ps = 0
	}
	verifrt.Assert(int(v.StoreStrategy) == want, "the strategy of the bucket comes before the one of the request")
	verifrt.Assert(v.DataShards == ds && v.ParityShards == ps, "objects have the shards that the bucket or the configuration tells")
	verifrt.Assert(len(v.Locate) == ds+ps && a.zzStored() == before+ds+ps, "every shard is stored")
	a.check(data, "")
	verifrt.Reach("stored")
}

// zzTaken keeps what is to be stored.
type zzTaken struct {
	usecase.IObjectService
	req *entity.PutReq
	md  *entity.Metadata
}

func (z *zzTaken) StoreObject(req *entity.PutReq, md *entity.Metadata) (int32, error) {
	z.req, z.md = req, md
	return 7, nil
}

// Without a strategy, the size tells it.
//
//gosym:harness C21 quick=20s thorough=60s
func VerifC21Size() {
	a := zzBig(3, 4)
	n := verifrt.AnyInt64("size")
	verifrt.Assume(n < 1<<40)
	z := &zzTaken{}
	h := NewHttpServer("0", z, a.m, service.VerifBuckets{M: a.m}).Handler
	r := ginm.Do(h, "PUT", "/v1/objects/a.txt", "", map[string]string{"bucket": "b", "digest": "D"}, &service.VerifReader{}, n)
	if n <= 0 {
		verifrt.Assert(r.Code == 400 && z.md == nil, "an upload without a size is refused")
		return
	}
	verifrt.Assert(r.Code == 201 && z.md != nil && len(z.md.Versions) == 1, "an upload is handed on")
	v := z.md.Versions[0]
	verifrt.Assert(v.Size == n && z.md.Name == "a.txt" && z.md.Bucket == "b" && v.Hash == "D", "an upload is handed on as it is")
	verifrt.Assert((v.StoreStrategy == entity.ECReedSolomon) == (n > 64*1024), "big objects are erasure coded")
	verifrt.Assert((v.StoreStrategy == entity.MultiReplication) == (n <= 64*1024), "small objects are copied")
	verifrt.Reach("taken")
}

// Versions are kept as the bucket wants, whose policy may change.
//
//gosym:harness C21 quick=100s thorough=600s
func VerifC21Retention() {
	a := zzBig(3, 4)
	b := a.m.Bucket
	b.VersionRemains = 3
	all := map[int32][]byte{}
	last := int32(0)
	for i := 0; i < verifrt.Bound("uploads", 4, 5); i++ {
		if i == 1 || i == 3 {
			switch verifrt.Choice("policy", 4) {
			case 1:
				b.Versioning = false
			case 2:
				b.VersionRemains = 2
			case 3:
				b.VersionRemains = 0
			}
		}
		data := service.VerifContent(1 + i)
		old := append([]*entity.Version{}, a.m.Vers...)
		var r *ginm.Writer
		if verifrt.Choice("big", 2) == 1 {
			r = a.zzUp(data, strconv.Itoa(i), false)
		} else {
			r = a.zzPut(data, strconv.Itoa(i), "")
		}
		verifrt.Assert(r.Code == 200 || r.Code == 201, "an object is stored")
		max := b.VersionRemains
		if !b.Versioning || max < 1 {
			max = 1
		}
		last++
		all[last] = data
		want := len(old) + 1
		if want > max {
			want = max
		}
		verifrt.Assert(len(a.m.Vers) == want, "as many versions remain as the bucket wants")
		for k, v := range a.m.Vers {
			verifrt.Assert(v.Sequence == last-int32(want-1-k), "the last versions remain")
			a.check(all[v.Sequence], strconv.Itoa(int(v.Sequence)))
		}
	}
	verifrt.Reach("uploaded")
}

// A policy changes while an upload in parts goes on, or the bucket goes away.
//
//gosym:harness C21 quick=30s thorough=100s
func VerifC21Change() {
	a := zzBig(3, 4)
	data := service.VerifContent([]int{1, 19}[verifrt.Choice("size", 2)])
	r := a.start(len(data), "D", false)
	verifrt.Assert(r.Code == 201, "an upload is started")
	path := r.Head.Get("Location")
	mode := verifrt.Choice("change", 4)
	switch mode {
	case 1:
		a.m.Bucket.Readonly = true
	case 2:
		a.m.Fail = func(op string) error {
			if op == "bucket" {
				return usecase.ErrNotFound
			}
			return nil
		}
	case 3: // another upload is first
		a.m.Fail = func(op string) error {
			if op == "save" && !a.m.Exists {
				a.m.Exists = true
			}
			return nil
		}
	}
	r = a.part(path, 0, &service.VerifReader{Data: data, Step: 1000}, len(data))
	switch mode {
	case 1:
		verifrt.Assert(r.Code == 400 && len(a.m.Vers) == 0, "nothing is added to a readonly bucket")
		return
	case 2:
		verifrt.Assert(r.Code == 404 && len(a.m.Vers) == 0, "nothing is added to a bucket which is gone")
		return
	}
	verifrt.Assert(r.Code == 200 && len(a.m.Vers) == 1, "an object is uploaded")
	a.m.Fail = nil
	a.check(data, "")
	verifrt.Reach("uploaded")
}

// Nothing is stored in a bucket which does not exist.
//
//gosym:harness C21 quick=20s thorough=60s
func VerifC21Missing() {
	a := zzBig(3, 4)
	a.m.Fail = func(op string) error {
		if op == "bucket" {
			return usecase.ErrNotFound
		}
		return nil
	}
	data := service.VerifContent(1)
	var r *ginm.Writer
	if verifrt.Choice("big", 2) == 1 {
		r = a.zzUp(data, "D", false)
	} else {
		r = a.zzPut(data, "D", "")
	}
	verifrt.Assert(r.Code == 404 && !a.m.Exists && a.zzStored() == 0 && a.clean(), "nothing is stored in a bucket which does not exist")
}

// zzTurns runs something before one of the operations on metadata.
type zzTurns struct {
	*service.VerifMeta
	mu sync.Mutex
	n  int
	do func()
}

func (z *zzTurns) turn() {
	z.mu.Lock()
	z.n--
	f := z.do
	if z.n != 0 {
		f = nil
	}
	z.mu.Unlock()
	if f != nil {
		f()
	}
}

func (z *zzTurns) SaveMetadata(m *entity.Metadata) (int32, error) {
	z.turn()
	return z.VerifMeta.SaveMetadata(m)
}

func (z *zzTurns) AddVersion(n, b string, v *entity.Version) (int32, error) {
	z.turn()
	return z.VerifMeta.AddVersion(n, b, v)
}

func (z *zzTurns) GetMetadata(n, b string, v int32, x bool) (*entity.Metadata, error) {
	z.turn()
	return z.VerifMeta.GetMetadata(n, b, v, x)
}

func (z *zzTurns) RemoveVersion(n, b string, v int32) error {
	z.turn()
	return z.VerifMeta.RemoveVersion(n, b, v)
}

// Two uploads of one object at once leave as many versions as the bucket wants.
//
//gosym:harness C21 quick=60s thorough=300s
func VerifC21Both() {
	a := zzBig(3, 4)
	b := a.m.Bucket
	b.VersionRemains = 2
	b.Versioning = verifrt.Choice("versioning", 2) == 1
	z := &zzTurns{VerifMeta: a.m}
	bk := service.VerifBuckets{M: a.m}
	cli, _ := service.VerifEtcdClient(a.w)
	a.h = NewHttpServer("0", service.NewObjectService(z, bk, cli), z, bk).Handler
	n := verifrt.Choice("before", 4)
	for i := 0; i < n; i++ {
		verifrt.Assert(a.zzPut(service.VerifContent(1), strconv.Itoa(i), "ss=2").Code == 201, "an object is stored")
	}
	up := func(i int) int {
		d := service.VerifContent(2 + i)
		if verifrt.Choice("big", 2) == 1 {
			return a.zzUp(d, "X"+strconv.Itoa(i), false).Code
		}
		return a.zzPut(d, "X"+strconv.Itoa(i), "ss=2").Code
	}
	inner := 0
	z.n = 1 + verifrt.Choice("when", 5)
	z.do = func() { inner = up(1) }
	outer := up(0)
	verifrt.Drain()
	verifrt.Assume(inner != 0)
	verifrt.Assert(outer/100 == 2 && inner/100 == 2, "both objects are stored")
	max := 2
	if !b.Versioning {
		max = 1
	}
	verifrt.Assert(len(a.m.Vers) == max, "as many versions remain as the bucket wants")
	verifrt.Assert(a.m.Vers[max-1].Sequence == int32(n+2), "the last version remains")
	verifrt.Reach("uploaded")
}
