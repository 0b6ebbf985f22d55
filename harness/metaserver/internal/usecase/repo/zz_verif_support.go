package repo

import (
	"common/cache"
	"common/verifrt"
	_ "common/verifrt/boltm"
	"metaserver/internal/usecase/db"
)

// zzCache is a cache that keeps everything, or nothing.
type zzCache struct {
	m    map[string][]byte
	keep bool
}

func newZzCache(keep bool) *zzCache { return &zzCache{map[string][]byte{}, keep} }

func (c *zzCache) NotifyEvicted() <-chan cache.Entry { return nil }
func (c *zzCache) Get(k string) []byte               { return c.m[k] }
func (c *zzCache) HasGet(k string) ([]byte, bool)    { v, ok := c.m[k]; return v, ok }
func (c *zzCache) Has(k string) bool                 { _, ok := c.m[k]; return ok }
func (c *zzCache) Set(k string, v []byte) bool {
	if c.keep {
		c.m[k] = v
	}
	return true
}
func (c *zzCache) SetGob(k string, v interface{}) bool { return false }
func (c *zzCache) Refresh(k string)                    {}
func (c *zzCache) Delete(k string)                     { delete(c.m, k) }
func (c *zzCache) Close() error                        { return nil }

func zzStorage() *db.Storage {
	s := db.NewStorage()
	err := s.Open(verifrt.TempDir() + "/meta.db")
	verifrt.Assert(err == nil, "storage opens")
	return s
}
