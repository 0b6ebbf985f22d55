package registry

import (
	"common/verifrt"
	"context"
	"errors"
	"strings"
	"sync"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// VerifEtcd is an etcd with revisions, watches and leases.
type VerifEtcd struct {
	clientv3.KV
	clientv3.Watcher
	clientv3.Lease
	mu      sync.Mutex
	keys    []string
	vals    []string
	leases  []clientv3.LeaseID
	mods    []int64
	rev     int64
	log     []*clientv3.Event
	watches []*verifWatch
	alive   map[clientv3.LeaseID]chan *clientv3.LeaseKeepAliveResponse
	lost    map[clientv3.LeaseID]bool
	Granted int
	Revoked int
	AfterGet,
	OnGrant func() // called with a request served
	OnPut   func() // called before a request is served
	GetErrs, GrantErrs, AliveErrs, PutErrs int
}

type verifWatch struct {
	key    string
	prefix bool
	c      chan clientv3.WatchResponse
	closed bool
}

func VerifNewEtcd() *VerifEtcd {
	return &VerifEtcd{alive: map[clientv3.LeaseID]chan *clientv3.LeaseKeepAliveResponse{}, lost: map[clientv3.LeaseID]bool{}, rev: 1}
}

func (e *VerifEtcd) Client() *clientv3.Client {
	return &clientv3.Client{KV: e, Watcher: e, Lease: e}
}

// Close closes nothing.
func (e *VerifEtcd) Close() error { return nil }

func verifMatch(k, key string, prefix bool) bool {
	return k == key || prefix && strings.HasPrefix(k, key)
}

func (e *VerifEtcd) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	e.mu.Lock()
	if e.GetErrs > 0 {
		e.GetErrs--
		e.mu.Unlock()
		return nil, errors.New("etcd does not answer")
	}
	op := clientv3.OpGet(key, opts...)
	prefix := op.RangeBytes() != nil
	r := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: e.rev}}
	for i, k := range e.keys {
		if verifMatch(k, key, prefix) {
			r.Kvs = append(r.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(e.vals[i]), ModRevision: e.mods[i]})
		}
	}
	e.mu.Unlock()
	if e.AfterGet != nil {
		e.AfterGet()
	}
	return r, nil
}

func (e *VerifEtcd) event(ev *clientv3.Event) {
	e.log = append(e.log, ev)
	for _, w := range e.watches {
		if !w.closed && verifMatch(string(ev.Kv.Key), w.key, w.prefix) {
			w.c <- clientv3.WatchResponse{Events: []*clientv3.Event{ev}}
		}
	}
}

func (e *VerifEtcd) Put(ctx context.Context, key, val string, opts ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	if e.OnPut != nil {
		e.OnPut()
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.PutErrs > 0 {
		e.PutErrs--
		return nil, errors.New("put refused")
	}
	op := clientv3.OpPut(key, val, opts...)
	lease := clientv3.LeaseID(verifrt.PrivInt(&op, "leaseID"))
	if lease != 0 && e.alive[lease] == nil {
		return nil, errors.New("lease not found")
	}
	e.rev++
	at := -1
	for i, k := range e.keys {
		if k == key {
			at = i
		}
	}
	if at < 0 {
		at = len(e.keys)
		e.keys, e.vals, e.leases, e.mods = append(e.keys, key), append(e.vals, ""), append(e.leases, 0), append(e.mods, 0)
	}
	e.vals[at], e.leases[at], e.mods[at] = val, lease, e.rev
	e.event(&clientv3.Event{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte(key), Value: []byte(val), ModRevision: e.rev}})
	return &clientv3.PutResponse{}, nil
}

func (e *VerifEtcd) drop(i int) {
	e.rev++
	k := e.keys[i]
	e.mods = append(e.mods[:i:i], e.mods[i+1:]...)
	e.keys, e.vals, e.leases = append(e.keys[:i:i], e.keys[i+1:]...), append(e.vals[:i:i], e.vals[i+1:]...), append(e.leases[:i:i], e.leases[i+1:]...)
	e.event(&clientv3.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: e.rev}})
}

func (e *VerifEtcd) Delete(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i, k := range e.keys {
		if k == key {
			e.drop(i)
			break
		}
	}
	return &clientv3.DeleteResponse{}, nil
}

func (e *VerifEtcd) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	e.mu.Lock()
	defer e.mu.Unlock()
	op := clientv3.OpGet(key, opts...)
	w := &verifWatch{key: key, prefix: op.RangeBytes() != nil, c: make(chan clientv3.WatchResponse, 50)}
	if op.Rev() > 0 {
		for _, ev := range e.log {
			if ev.Kv.ModRevision >= op.Rev() && verifMatch(string(ev.Kv.Key), key, w.prefix) {
				w.c <- clientv3.WatchResponse{Events: []*clientv3.Event{ev}}
			}
		}
	}
	e.watches = append(e.watches, w)
	go func() {
		<-ctx.Done()
		e.mu.Lock()
		defer e.mu.Unlock()
		if !w.closed {
			w.closed = true
			close(w.c)
		}
	}()
	return w.c
}

// Break ends all watches, with an error or without; the changes since rev are not delivered.
func (e *VerifEtcd) Break(canceled bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, w := range e.watches {
		if !w.closed {
			if canceled {
				w.c <- clientv3.WatchResponse{Canceled: true, CompactRevision: e.rev}
			}
			w.closed = true
			close(w.c)
		}
	}
}

// Keys returns the keys present and their values.
func (e *VerifEtcd) Keys() ([]string, []string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]string(nil), e.keys...), append([]string(nil), e.vals...)
}

// Watching counts the watches going on.
func (e *VerifEtcd) Watching() (n int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, w := range e.watches {
		if !w.closed {
			n++
		}
	}
	return
}

func (e *VerifEtcd) Grant(ctx context.Context, ttl int64) (*clientv3.LeaseGrantResponse, error) {
	e.mu.Lock()
	if ctx.Err() != nil {
		e.mu.Unlock()
		return nil, ctx.Err()
	}
	if e.GrantErrs > 0 {
		e.GrantErrs--
		e.mu.Unlock()
		return nil, errors.New("etcd does not answer")
	}
	e.Granted++
	id := clientv3.LeaseID(100 + e.Granted)
	e.alive[id] = make(chan *clientv3.LeaseKeepAliveResponse, 5)
	e.mu.Unlock()
	if e.OnGrant != nil {
		e.OnGrant()
	}
	return &clientv3.LeaseGrantResponse{ID: id, TTL: ttl}, nil
}

func (e *VerifEtcd) KeepAlive(ctx context.Context, id clientv3.LeaseID) (<-chan *clientv3.LeaseKeepAliveResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.AliveErrs > 0 {
		e.AliveErrs--
		e.expire(id)
		return nil, errors.New("etcd does not answer")
	}
	c := e.alive[id]
	if c == nil {
		return nil, errors.New("lease not found")
	}
	if e.lost[id] {
		out := make(chan *clientv3.LeaseKeepAliveResponse)
		close(out)
		return out, nil
	}
	c <- &clientv3.LeaseKeepAliveResponse{ID: id, TTL: 1}
	out := make(chan *clientv3.LeaseKeepAliveResponse)
	go func() {
		defer close(out)
		for {
			select {
			case <-ctx.Done():
				return
			case r, ok := <-c:
				if !ok {
					return
				}
				out <- r
			}
		}
	}()
	return out, nil
}

func (e *VerifEtcd) expire(id clientv3.LeaseID) {
	c := e.alive[id]
	if c == nil {
		return
	}
	delete(e.alive, id)
	if !e.lost[id] {
		close(c)
	}
	delete(e.lost, id)
	for i := 0; i < len(e.keys); i++ {
		if e.leases[i] == id {
			e.drop(i)
			i--
		}
	}
}

// Expire ends all leases.
func (e *VerifEtcd) Expire() {
	e.mu.Lock()
	defer e.mu.Unlock()
	for id := clientv3.LeaseID(100); id <= clientv3.LeaseID(100+e.Granted); id++ {
		e.expire(id)
	}
}

// Lose ends the renewal of all leases, they expire only when Forget is called.
func (e *VerifEtcd) Lose() {
	e.mu.Lock()
	defer e.mu.Unlock()
	for id := clientv3.LeaseID(100); id <= clientv3.LeaseID(100+e.Granted); id++ {
		if c := e.alive[id]; c != nil && !e.lost[id] {
			e.lost[id] = true
			close(c)
		}
	}
}

// Forget lets the leases not renewed expire.
func (e *VerifEtcd) Forget() {
	e.mu.Lock()
	defer e.mu.Unlock()
	for id := clientv3.LeaseID(100); id <= clientv3.LeaseID(100+e.Granted); id++ {
		if e.lost[id] {
			e.expire(id)
		}
	}
}

// Bound tells whether the key has a lease that is alive.
func (e *VerifEtcd) Bound(key string) bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	for i, k := range e.keys {
		if k == key {
			return e.leases[i] != 0 && e.alive[e.leases[i]] != nil && !e.lost[e.leases[i]]
		}
	}
	return false
}

// LeasesAlive counts the leases alive.
func (e *VerifEtcd) LeasesAlive() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.alive)
}

func (e *VerifEtcd) Revoke(ctx context.Context, id clientv3.LeaseID) (*clientv3.LeaseRevokeResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Revoked++
	e.expire(id)
	return &clientv3.LeaseRevokeResponse{}, nil
}
