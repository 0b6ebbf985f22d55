package db

import (
	"common/hashslot"
	"common/util"
	"common/verifrt"
	"context"
	"errors"
	"sort"
	"strings"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"
)

// zzKV is etcd with revisions; after says what happens between reading and answering, once.
type zzKV struct {
	clientv3.KV
	m     map[string]string
	rev   int64
	after func()
	fail  int // 1: a put fails, 2: a put is done but its answer is lost
}

func (z *zzKV) Get(_ context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	op := clientv3.OpGet(key, opts...)
	prefix := op.RangeBytes() != nil
	var ks []string
	for k := range z.m {
		if k == key || prefix && strings.HasPrefix(k, key) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	res := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: z.rev}}
	for _, k := range ks {
		res.Kvs = append(res.Kvs, &mvccpb.KeyValue{Key: []byte(k), Value: []byte(z.m[k])})
	}
	if f := z.after; f != nil {
		z.after = nil
		f()
	}
	return res, nil
}

func (z *zzKV) Put(_ context.Context, key, val string, _ ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	f := z.fail
	z.fail = 0
	if f != 1 {
		z.rev++
		z.m[key] = val
	}
	if f > 0 {
		return nil, errors.New("etcd does not answer")
	}
	return &clientv3.PutResponse{}, nil
}

func zzInfo(id, slots string) *hashslot.SlotInfo {
	return &hashslot.SlotInfo{GroupID: id, ServerID: id, Slots: []string{slots}}
}

// Slots saved by a server are known to it from then on, and slots read later replace those read earlier, whatever
// overlaps with reading them.
//
//gosym:harness C11 quick=40s thorough=100s
func VerifC11Reload() {
	kv := &zzKV{m: map[string]string{}, rev: 5}
	h := NewHashSlotDB("slots/", kv)
	put := func(id, slots string) {
		bt, err := util.EncodeMsgp(zzInfo(id, slots))
		verifrt.Assert(err == nil, "slots are encoded")
		kv.Put(context.Background(), "slots/"+id, string(bt))
	}
	put("a", "0-100")
	put("b", "100-16384")
	cut := 99
	loaded := verifrt.Choice("loaded before", 2) == 1
	if loaded {
		_, err := h.GetEdgeProvider(false)
		verifrt.Assert(err == nil, "slots are read")
	}
	own := false
	move := func(how int) {
		if how == 0 {
			return
		}
		put("b", "9000-16384")
		switch how {
		case 1: // the other server saved, this one reads again meanwhile
			put("a", "0-9000")
			cut = 8999
			_, err := h.GetEdgeProvider(true)
			verifrt.Assert(err == nil, "slots are read")
		default: // this server saves
			kv.fail = how - 2
			err := h.Save("a", zzInfo("a", "0-9000"))
			verifrt.Assert((err == nil) == (how == 2), "a failure to save is reported")
			if how == 3 {
				put("b", "100-16384")
			} else {
				cut = 8999
			}
		}
		own = true
	}
	kv.after = func() { move(verifrt.Choice("meanwhile", 5)) }
	_, err := h.GetEdgeProvider(verifrt.Choice("reload", 2) == 1)
	verifrt.Assert(err == nil, "slots are read")
	if kv.after != nil {
		kv.after = nil
		move(2)
	}
	p, err := h.GetEdgeProvider(false)
	verifrt.Assert(err == nil, "slots are read")
	for _, s := range []int{0, 99, 100, 8999, 9000, 16383} {
		want := "a"
		if s > cut && own && cut != 99 || s > 99 && cut == 99 {
			want = "b"
		}
		got, err := hashslot.GetSlotIdentify(s, p)
		verifrt.Assert(err == nil && got == want, "slots are owned as saved last")
	}
	id, err := h.GetKeyIdentify("k")
	verifrt.Assert(err == nil && (id == "a" || id == "b"), "a key has an owner")
	verifrt.Reach("reloaded")
}
