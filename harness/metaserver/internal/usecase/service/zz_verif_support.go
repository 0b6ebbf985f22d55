package service

import (
	"common/cache"
	"common/proto/msg"
	"common/verifrt"
	_ "common/verifrt/boltm"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"metaserver/internal/usecase/raftimpl"
	"metaserver/internal/usecase/repo"
	"strconv"
)

// zzCache is a cache that keeps everything, or nothing.
type zzCache struct {
	m    map[string][]byte
	keep bool
}

func newZzCache(keep bool) *zzCache { return &zzCache{map[string][]byte{}, keep} }

func (c *zzCache) NotifyEvicted() <-chan cache.Entry { return nil }
func (c *zzCache) Get(k string) []byte               { return c.m[k] }
func (c *zzCache) HasGet(k string) ([]byte, bool)    { v, ok := c.m[k]; return v, ok }
func (c *zzCache) Has(k string) bool                 { _, ok := c.m[k]; return ok }
func (c *zzCache) Set(k string, v []byte) bool {
	if c.keep {
		c.m[k] = v
	}
	return true
}
func (c *zzCache) SetGob(k string, v interface{}) bool { return false }
func (c *zzCache) Refresh(k string)                    {}
func (c *zzCache) Delete(k string)                     { delete(c.m, k) }
func (c *zzCache) Close() error                        { return nil }

type zzServer struct {
	st   *db.Storage
	repo *repo.MetadataRepo
	serv *MetadataService
	buks *BucketService
}

func newZzServer(keep bool) *zzServer {
	s := db.NewStorage()
	verifrt.Assert(s.Open(verifrt.TempDir()+"/meta.db") == nil, "storage opens")
	c := newZzCache(keep)
	mc, bc := repo.NewMetadataCacheRepo(c), repo.NewBucketCacheRepo(c)
	r := repo.NewMetadataRepo(s, mc)
	rw := raftimpl.NewDisabledRaft()
	return &zzServer{s, r, NewMetadataService(r, repo.NewBatchRepo(s, mc), repo.NewHashIndexRepo(s), rw), NewBucketService(repo.NewBucketRepo(s, bc), rw)}
}

// the model of a random unique id: never the same twice
var zzUuids int

//gosym:model github.com/google/uuid.NewString
func zzUuid() string {
	zzUuids++
	return "uuid-" + strconv.Itoa(zzUuids)
}

func zzVersion(hash string, size int64) *msg.Version {
	return &msg.Version{Hash: hash, Size: size, Locate: []string{"s1", "s2"}}
}

var _ usecase.IMetadataService = (*MetadataService)(nil)
