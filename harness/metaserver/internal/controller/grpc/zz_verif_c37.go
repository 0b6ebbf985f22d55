package grpc

import (
	"common/hashslot"
	"common/util"
	"common/verifrt"
	"fmt"
	"metaserver/config"
	"metaserver/internal/usecase/logic"
	"strings"
)

// zzRecord is the record of a group in etcd.
func (z *zzKV) zzRecord(group string) (*hashslot.SlotInfo, bool) {
	v, ok := z.m["slots/"+group]
	if !ok {
		return nil, false
	}
	var i hashslot.SlotInfo
	verifrt.Assert(util.DecodeMsgp(&i, []byte(v)) == nil, "a record can be read")
	return &i, true
}

// The servers of a group lead it in turn, change its slots as migrations do, and etcd fails at any of their requests.
//
//gosym:with metaserver/config/zz_verif_support.go
//gosym:with metaserver/internal/controller/grpc/zz_verif_support.go
//gosym:harness C37 quick=60s thorough=600s
func VerifC37Leaders() {
	kv := &zzKV{m: map[string]string{}}
	ids := []string{"a", "b"}
	own := [][]string{{"0-10"}, {"0-10", "20-30"}}
	var nodes []*zzNode
	for i, id := range ids {
		n := newZzNode(id, kv)
		n.cfg.HashSlot.StoreID, n.cfg.HashSlot.Slots = "g", own[i]
		nodes = append(nodes, n)
	}
	other := newZzNode("x", kv)
	other.own("100-200", "300-400")
	x := kv.m["slots/x"]
	leader := -1
	want := "" // of the record
	for step := 0; step < verifrt.Bound("events", 3, 5); step++ {
		kv.failGet, kv.failPut = 0, 0
		switch verifrt.Choice("event", 4) {
		case 0, 1: // a server leads
			i := verifrt.Choice("server", 2)
			n := nodes[i]
			switch verifrt.Choice("fault", 3) {
			case 1:
				kv.failGet = 1
			case 2:
				kv.failPut = 1
			}
			fault := kv.failGet+kv.failPut > 0
			before, had := kv.m["slots/g"]
			n.as(func() error { n.hs.OnLeaderChanged(true); return nil })
			after, has := kv.m["slots/g"]
			if fault {
				verifrt.Assert(before == after && had == has, "a leader that cannot reach etcd changes no slots")
				verifrt.Reach("failed")
				break
			}
			leader = i
			if want == "" {
				want = strings.Join(own[i], ",")
			}
			for _, m := range nodes {
				m.as(func() error {
					e, err := m.hs.GetCurrentSlots(m != n) // what the leader has cached is outdated
					verifrt.Assert(err == nil && len(e) == 2, "every server knows the slots of both groups")
					verifrt.Assert(strings.Join(e[ids[leader]], ",") == want && strings.Join(e["x"], ",") == "100-200,300-400", "every server knows the slots of the leader")
					return nil
				})
			}
			verifrt.Assert(strings.Join(n.cfg.HashSlot.Slots, ",") == want, "a leader keeps the slots of its group for its next start")
			_, persisted := config.VerifPersisted[n.cfg]
			verifrt.Assert(persisted || !verifrt.Symbolic(), "a leader persists the slots of its group")
			verifrt.Reach("leads")
		case 2: // a server follows
			n := nodes[verifrt.Choice("server", 2)]
			before := fmt.Sprint(kv.m)
			n.as(func() error { n.hs.OnLeaderChanged(false); return nil })
			verifrt.Assert(fmt.Sprint(kv.m) == before, "a follower changes no slots")
		case 3: // slots are moved
			if leader < 0 {
				break
			}
			n := nodes[leader]
			to := [][]string{{"0-5"}, {"0-10", "12-15"}}[verifrt.Choice("slots", 2)]
			n.as(func() error {
				i, err := logic.NewHashSlot().GetById("g")
				verifrt.Assert(err == nil, "the slots of a group can be read")
				i.Slots = to
				verifrt.Assert(logic.NewHashSlot().SaveToEtcd("g", i) == nil, "the slots of a group are saved")
				return nil
			})
			want = strings.Join(to, ",")
			verifrt.Reach("moved")
		}
		r, ok := kv.zzRecord("g")
		verifrt.Assert(ok == (leader >= 0), "a group is recorded once it had a leader")
		if ok {
			verifrt.Assert(r.GroupID == "g" && r.ServerID == ids[leader], "the slots of a group belong to its leader")
			verifrt.Assert(strings.Join(r.Slots, ",") == want, "a group keeps its slots whoever leads it")
		}
		verifrt.Assert(kv.m["slots/x"] == x, "another server keeps its slots")
	}
}
