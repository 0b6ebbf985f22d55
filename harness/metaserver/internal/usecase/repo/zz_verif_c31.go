package repo

import (
	"common/proto/msg"
	"common/util"
	"common/verifrt"
	"errors"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"strings"
)

type zzBuk struct {
	create, update int64
	readonly       bool
	strategy       int8
}

type zzBuckets struct {
	st *db.Storage
	r  *BucketRepo
	w  usecase.BucketWritableRepo
	m  map[string]*zzBuk
}

var zzBukNames = []string{"a", "ab", "b"}

func newZzBuckets(keep, batch bool) *zzBuckets {
	st := zzStorage()
	c := NewBucketCacheRepo(newZzCache(keep))
	z := &zzBuckets{st: st, r: NewBucketRepo(st, c), m: map[string]*zzBuk{}}
	z.w = z.r
	if batch {
		z.w = NewBatchBucketRepo(st, c)
	}
	return z
}

func (z *zzBuckets) create(n string) {
	k := &zzBuk{zzTime("create"), zzTime("update"), len(z.m)%2 == 1, int8(verifrt.Int("strategy", 0, 2))}
	err := z.w.Create(&msg.Bucket{Name: n, CreateTime: k.create, UpdateTime: k.update, Readonly: k.readonly, StoreStrategy: k.strategy})
	if n == "" {
		verifrt.Assert(err != nil, "a bucket without a name is refused")
		return
	}
	if z.m[n] != nil {
		verifrt.Assert(errors.Is(err, usecase.ErrExists), "creating a bucket that exists is refused")
		return
	}
	verifrt.Assert(err == nil, "creating a new bucket succeeds")
	z.m[n] = k
}

func (z *zzBuckets) update(n string) {
	k := &zzBuk{zzTime("create"), zzTime("update"), len(z.m)%2 == 1, int8(verifrt.Int("strategy", 0, 2))}
	err := z.w.Update(&msg.Bucket{Name: n, CreateTime: k.create, UpdateTime: k.update, Readonly: k.readonly, StoreStrategy: k.strategy})
	if n == "" {
		verifrt.Assert(err != nil, "a bucket without a name is refused")
		return
	}
	o := z.m[n]
	if o == nil {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "updating an unknown bucket is refused")
		return
	}
	if k.update <= o.update {
		verifrt.Assert(errors.Is(err, usecase.ErrOldData), "an outdated update of a bucket is refused")
		return
	}
	verifrt.Assert(err == nil, "a newer update of a bucket succeeds")
	k.create = o.create
	z.m[n] = k
}

func (z *zzBuckets) same(b *msg.Bucket, n string) bool {
	k := z.m[n]
	return b.Name == n && verifrt.And(verifrt.And(b.CreateTime == k.create, b.UpdateTime == k.update), verifrt.And(b.Readonly == k.readonly, b.StoreStrategy == k.strategy))
}

func (z *zzBuckets) read(n string) {
	b, err := z.r.Get(n)
	bt, err2 := z.r.GetBytes(n)
	if z.m[n] == nil {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound) && errors.Is(err2, usecase.ErrNotFound), "an unknown bucket is not found")
		return
	}
	verifrt.Assert(err == nil && err2 == nil, "a stored bucket is found")
	verifrt.Assert(z.same(b, n), "the bucket read is the one stored")
	var d msg.Bucket
	verifrt.Assert(util.DecodeMsgp(&d, bt) == nil && z.same(&d, n), "the encoded bucket read is the one stored")
}

func (z *zzBuckets) list(prefix string, size int) {
	lst, total, err := z.r.List(prefix, size)
	verifrt.Assert(err == nil, "listing buckets succeeds")
	i, all := 0, 0
	for _, n := range zzBukNames {
		if z.m[n] == nil || !strings.HasPrefix(n, prefix) {
			continue
		}
		all++
		if i < size {
			verifrt.Assert(i < len(lst) && z.same(lst[i], n), "the list shows the buckets with the prefix in order")
			i++
		}
	}
	verifrt.Assert(len(lst) == i, "the list shows nothing else")
	verifrt.Assert(total == all, "the total counts all buckets with the prefix")
}

func (z *zzBuckets) all() {
	seen := 0
	err := z.r.Foreach(func(k, v []byte) error {
		var d msg.Bucket
		verifrt.Assert(util.DecodeMsgp(&d, v) == nil && z.m[string(k)] != nil && z.same(&d, string(k)), "iteration shows stored buckets")
		seen++
		return nil
	})
	verifrt.Assert(err == nil || len(z.m) == 0, "iterating buckets succeeds")
	verifrt.Assert(seen == len(z.m), "iteration shows every bucket")
	for _, n := range zzBukNames {
		z.read(n)
	}
}

func (z *zzBuckets) step() {
	op := verifrt.Choice("op", 5)
	n := zzBukNames[verifrt.Choice("name", 2)]
	switch op {
	case 0:
		z.create(n)
	case 1:
		z.update(n)
	case 2:
		verifrt.Assert(z.w.Remove(n) == nil, "removing a bucket succeeds")
		delete(z.m, n)
	case 3:
		z.read(n)
	case 4:
		z.create("")
		z.update("")
		z.list([]string{"", "a", "ab", "c"}[verifrt.Choice("prefix", 4)], verifrt.Choice("size", 4))
	}
}

// Whatever was done to buckets before, every bucket reads as it was last written, by itself, in lists
// and in iterations, with or without a cache, written singly or in batches.
//
//gosym:with metaserver/internal/usecase/repo/zz_verif_support.go
//gosym:with metaserver/internal/usecase/repo/zz_verif_drive.go
//gosym:harness C31 quick=90s thorough=800s
func VerifC31Buckets() {
	z := newZzBuckets(verifrt.Choice("cache", 2) == 1, verifrt.Choice("batch", 2) == 1)
	switch verifrt.Choice("start", 3) {
	case 1:
		z.create("a")
	case 2:
		z.create("a")
		z.create("ab")
		z.create("b")
		z.all()
	}
	for i := verifrt.Bound("operations", 2, 3); i > 0; i-- {
		z.step()
	}
	z.all()
	z.list("", 3)
	z.list("a", 2)
	z.all()
	verifrt.Reach("end")
}

// The encoded bucket handed out stays as it was when the database changes afterwards.
//
//gosym:harness C31 quick=60s thorough=120s
func VerifC31Stable() {
	z := newZzBuckets(false, false)
	z.create("a")
	big := []string{strings.Repeat("x", 3000)} // too big to be kept inline
	verifrt.Assert(z.w.Create(&msg.Bucket{Name: "b", Policies: big}) == nil, "creating a new bucket succeeds")
	bt, err := z.r.GetBytes("a")
	verifrt.Assert(err == nil, "a stored bucket is found")
	before := string(bt)
	for i := 0; i < 8; i++ {
		verifrt.Assert(z.w.Update(&msg.Bucket{Name: "a", UpdateTime: int64(1000 + i)}) == nil, "a newer update of a bucket succeeds")
		verifrt.Assert(z.w.Update(&msg.Bucket{Name: "b", UpdateTime: int64(1000 + i), Policies: big}) == nil, "a newer update of a bucket succeeds")
	}
	verifrt.Assert(verifrt.EqString(before, string(bt)), "bytes handed out do not change later")
	verifrt.Reach("end")
}
