package service

import (
	"common/cst"
	"context"
	"strings"
	"sync"

	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// VerifEtcd is an etcd through which object servers answer where shards are.
type VerifEtcd struct {
	clientv3.KV
	clientv3.Watcher
	mu      sync.Mutex
	w       *VerifNet
	watches map[string]chan clientv3.WatchResponse
	Deleted []string
	// Answer gives the answers of a server to a question, if set.
	Answer func(s *VerifServer, shard, place string) []string
}

// VerifEtcdClient makes a client of an etcd that connects the object servers.
func VerifEtcdClient(w *VerifNet) (*clientv3.Client, *VerifEtcd) {
	e := &VerifEtcd{w: w, watches: map[string]chan clientv3.WatchResponse{}}
	return &clientv3.Client{KV: e, Watcher: e}, e
}

func (e *VerifEtcd) Watch(ctx context.Context, key string, _ ...clientv3.OpOption) clientv3.WatchChan {
	e.mu.Lock()
	defer e.mu.Unlock()
	c := make(chan clientv3.WatchResponse, 100)
	e.watches[key] = c
	return c
}

// Close ends a watch.
func (e *VerifEtcd) Close() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	for k, c := range e.watches {
		close(c)
		delete(e.watches, k)
	}
	return nil
}

func (e *VerifEtcd) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if key != cst.EtcdPrefix.LocationSubKey {
		return &clientv3.PutResponse{}, nil
	}
	shard, reply, ok := strings.Cut(val, "#")
	if !ok {
		return &clientv3.PutResponse{}, nil
	}
	for i := 0; i < len(e.w.Servers); i++ {
		s := e.w.At(i)
		if s.Down {
			continue
		}
		var as []string
		place := s.Host + "#" + shard[strings.LastIndexByte(shard, '.')+1:]
		if e.Answer != nil {
			as = e.Answer(s, shard, place)
		} else if s.Objects[shard] != nil {
			as = []string{place}
		}
		for _, a := range as {
			if c := e.watches[reply]; c != nil {
				c <- clientv3.WatchResponse{Events: []*clientv3.Event{{Type: mvccpb.PUT, Kv: &mvccpb.KeyValue{Key: []byte(reply), Value: []byte(a)}}}}
			}
		}
	}
	return &clientv3.PutResponse{}, nil
}

func (e *VerifEtcd) Delete(_ context.Context, key string, _ ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.Deleted = append(e.Deleted, key)
	return &clientv3.DeleteResponse{}, nil
}
