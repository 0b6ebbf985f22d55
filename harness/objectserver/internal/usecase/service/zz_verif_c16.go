package service

import (
	"common/cst"
	"common/verifrt"
	"context"
	"errors"
	"io"
	"objectserver/internal/usecase/pool"
	"os"
	"sort"
	"strconv"
	"sync"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

type zzDiscovery struct{ at string }

func (d *zzDiscovery) GetServiceMapping(string) map[string]string           { return nil }
func (d *zzDiscovery) GetServices(string) []string                          { return nil }
func (d *zzDiscovery) GetServiceMappingWith(string, bool) map[string]string { return nil }
func (d *zzDiscovery) GetServicesWith(string, bool) []string                { return nil }
func (d *zzDiscovery) GetService(name, id string) (string, bool) {
	verifrt.Assert(name == "object" && id == "o1", "a server asks for its own address")
	return d.at, d.at != ""
}

// zzEtcd passes questions to the server and keeps its answers.
type zzEtcd struct {
	clientv3.KV
	clientv3.Watcher
	mu      sync.Mutex
	ch      chan clientv3.WatchResponse
	watches int
	answers []string
	failPut bool
}

func (e *zzEtcd) Watch(_ context.Context, key string, _ ...clientv3.OpOption) clientv3.WatchChan {
	verifrt.Assert(key == cst.EtcdPrefix.LocationSubKey, "questions are listened to")
	e.mu.Lock()
	defer e.mu.Unlock()
	e.watches++
	e.ch = make(chan clientv3.WatchResponse, 10)
	return e.ch
}

func (e *zzEtcd) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.answers = append(e.answers, key+"="+val)
	if e.failPut {
		return nil, errors.New("etcd is down")
	}
	return &clientv3.PutResponse{}, nil
}

func (e *zzEtcd) ask(qs ...string) {
	var r clientv3.WatchResponse
	for _, q := range qs {
		r.Events = append(r.Events, &clientv3.Event{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte(cst.EtcdPrefix.LocationSubKey), Value: []byte(q)}})
	}
	e.ch <- r
	verifrt.Drain()
}

// An object server answers where a shard is exactly if it has it.
//
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:harness C16 quick=60s thorough=300s
func VerifC16Answer() {
	root := verifrt.TempDir()
	VerifWorld(root, false, 5, 9)
	d := &zzDiscovery{at: "10.0.0.1:80"}
	pool.Discovery = d
	pool.Config.Registry.Name, pool.Config.Registry.ServerID = "object", "o1"
	e := &zzEtcd{}
	l := &Locator{&clientv3.Client{KV: e, Watcher: e}}
	cancel := l.StartLocate()
	verifrt.Drain()
	// shards on one of the mount points: written through the server, or found on disk
	var have [2]bool
	for i := range have {
		name := "h." + strconv.Itoa(i)
		switch verifrt.Choice("stored", 4) {
		case 1: // written
			have[i] = Put(name, &zzSrc{n: 10}, false) == nil
		case 2: // there since before the start
			have[i] = os.WriteFile(VerifStores[i]+"/"+name, make([]byte, 4096), 0o600) == nil
		case 3: // written and removed
			verifrt.Assert(Put(name, &zzSrc{n: 10}, false) == nil, "a shard is stored")
			verifrt.Drain()
			verifrt.Assert(Delete(name) == nil, "a shard is removed")
		}
		verifrt.Drain()
	}
	switch verifrt.Choice("before", 5) {
	case 1: // the watch ends and is renewed
		close(e.ch)
		verifrt.Drain()
		verifrt.Assert(e.watches == 2, "an ended watch is renewed")
	case 2: // the watch fails once
		e.ch <- clientv3.WatchResponse{Canceled: true}
		verifrt.Drain()
	case 3: // malformed questions
		e.ask([]string{"", "h.0", "h#r", "#", "h.0#r#s", "h.0.1#r", "x.0#r"}[verifrt.Choice("malformed", 7)])
		verifrt.Assert(len(e.answers) == 0, "a malformed question gets no answer")
	case 4: // an answer that cannot be written
		e.failPut = true
		e.ask("h.0#q")
		e.failPut = false
		e.answers = nil
	}
	if verifrt.Choice("again", 2) == 1 {
		pool.Cache.(*VerifCache).Forget()
		verifrt.Drain()
	}
	if verifrt.Choice("together", 2) == 1 {
		e.ask("h.0#r0", "h.1#r1")
	} else {
		e.ask("h.0#r0")
		e.ask("h.1#r1")
	}
	var want []string
	for i, h := range have {
		if h {
			want = append(want, "r"+strconv.Itoa(i)+"=10.0.0.1:80#"+strconv.Itoa(i))
		}
	}
	sort.Strings(e.answers)
	verifrt.Assert(len(want) == len(e.answers), "exactly the shards of the server are answered")
	for i, a := range e.answers {
		verifrt.Assert(a == want[i], "the answer names the server and the shard")
	}
	cancel()
	verifrt.Drain()
	verifrt.Reach("answered")
}

type zzSrc struct{ n int }

func (s *zzSrc) Read(p []byte) (int, error) {
	if s.n == 0 {
		return 0, io.EOF
	}
	n := s.n
	if n > len(p) {
		n = len(p)
	}
	s.n -= n
	for i := 0; i < n; i++ {
		p[i] = byte(i)
	}
	return n, nil
}
