package service

import (
	"common/cache"
	"common/util"
	"common/verifrt"
	_ "common/verifrt/badgerm"
	"common/verifrt/fsm"
	_ "common/verifrt/gobm"
	_ "common/verifrt/s2m"
	"objectserver/config"
	"objectserver/internal/db"
	"objectserver/internal/usecase/component"
	"objectserver/internal/usecase/pool"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/allegro/bigcache/v3"
)

// VerifCache is a cache in memory whose entries expire when the harness says so.
type VerifCache struct {
	mu sync.Mutex
	m  map[string][]byte
	ch []chan cache.Entry
}

func (c *VerifCache) NotifyEvicted() <-chan cache.Entry {
	ch := make(chan cache.Entry, 5)
	c.ch = append(c.ch, ch)
	return ch
}
func (c *VerifCache) Get(k string) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	if v := c.m[k]; v != nil {
		return append([]byte{}, v...)
	}
	return nil
}
func (c *VerifCache) HasGet(k string) ([]byte, bool) { r := c.Get(k); return r, r != nil }
func (c *VerifCache) Has(k string) bool              { return c.Get(k) != nil }
func (c *VerifCache) Set(k string, v []byte) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.m[k] = append([]byte{}, v...)
	return true
}
func (c *VerifCache) SetGob(k string, v interface{}) bool { return c.Set(k, util.GobEncode(v)) }
func (c *VerifCache) Refresh(k string)                    {}
func (c *VerifCache) Delete(k string)                     { c.remove(k, bigcache.Deleted) }
func (c *VerifCache) Close() error                        { return nil }

// Expire drops an entry as its time-to-live would.
func (c *VerifCache) Expire(k string) { c.remove(k, bigcache.Expired) }

// Keys lists the entries.
func (c *VerifCache) Keys() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []string
	for k := range c.m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Forget expires everything but uploads in progress.
func (c *VerifCache) Forget() {
	for _, k := range c.Keys() {
		if !strings.HasPrefix(k, "TempInfo_") {
			c.Expire(k)
		}
	}
}

func (c *VerifCache) remove(k string, r bigcache.RemoveReason) {
	c.mu.Lock()
	v, ok := c.m[k]
	delete(c.m, k)
	c.mu.Unlock()
	if ok {
		go func() {
			for _, ch := range c.ch {
				ch <- cache.Entry{Key: k, Value: v, Reason: r}
			}
		}()
	}
}

var zzUUID int

//gosym:model github.com/google/uuid.NewString
func zzNewString() string { zzUUID++; return "u" + strconv.Itoa(zzUUID) }

// VerifStores are the two storage directories of VerifWorld.
var VerifStores []string

// VerifWorld starts a server over two mount points; again says it is a restart over the same files.
func VerifWorld(root string, again bool, free0, free1 int) *VerifCache {
	conf := &config.Config{}
	conf.StoragePath = "/store"
	conf.TempPath = "/store"
	conf.PathCachePath = "/paths"
	conf.Cache.MaxItemSize = 8192
	mps := []string{root + "/m0", root + "/m1"}
	conf.BaseMountPoint = mps[0]
	VerifStores = nil
	for _, mp := range mps {
		VerifStores = append(VerifStores, mp+"/store")
		if verifrt.Symbolic() {
			fsm.MkAll(mp + "/store")
		} else {
			os.MkdirAll(mp+"/store", 0o755)
		}
	}
	if again {
		pool.PathDB.Close()
	}
	pool.Config = conf
	pool.ObjectCap = db.NewObjectCapacity()
	pool.PathDB = db.VerifPathCache(root + "/paths")
	pool.DriverManager = component.VerifManager(mps, []int{free0, free1})
	c := &VerifCache{m: map[string][]byte{}}
	pool.Cache = c
	return c
}

// VerifFiles lists the files of both stores with their sizes.
func VerifFiles() (names []string, total int64) {
	for _, s := range VerifStores {
		es, err := os.ReadDir(s)
		verifrt.Assert(err == nil, "the store can be listed")
		for _, e := range es {
			fi, err := e.Info()
			verifrt.Assert(err == nil, "a stored file has a size")
			names = append(names, s+"/"+e.Name())
			total += fi.Size()
		}
	}
	sort.Strings(names)
	return
}
