package service

import (
	"common/proto/msg"
	"common/verifrt"
	"errors"
	"metaserver/internal/usecase"
)

// zzHistory stores n versions and removes some of them; it returns the numbers left.
func zzHistory(z *zzServer, n int, removed ...int) ([]int, map[int]bool) {
	verifrt.Assert(z.serv.AddMetadata("b/a", &msg.Metadata{Name: "a", Bucket: "b"}) == nil, "adding a new object succeeds")
	live := map[int]bool{}
	for i := 1; i <= n; i++ {
		seq, err := z.serv.AddVersion("b/a", zzVersion("h", int64(i)))
		verifrt.Assert(err == nil && seq == i, "versions are numbered one after the other")
		live[i] = true
	}
	for _, r := range removed {
		if r > 0 && live[r] {
			verifrt.Assert(z.serv.RemoveVersion("b/a", r) == nil, "removing a version succeeds")
			delete(live, r)
		}
	}
	var left []int
	for i := 1; i <= n; i++ {
		if live[i] {
			left = append(left, i)
		}
	}
	return left, live
}

// For any number of versions with any two of them removed, the latest, first and summary are those with
// the highest and lowest number left.
//
//gosym:with metaserver/internal/usecase/service/zz_verif_support.go
//gosym:harness C07 quick=90s thorough=800s
func VerifC07Latest() {
	z := newZzServer(verifrt.Choice("cache", 2) == 1)
	counts := []int{0, 1, 2, 9, 10, 11}
	if verifrt.Thorough() {
		counts = []int{0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 19, 20, 21}
	}
	n := counts[verifrt.Choice("versions", len(counts))]
	gone := []int{0, 1, 2, 9, n - 1, n}
	left, live := zzHistory(z, n, gone[verifrt.Choice("removed", len(gone))], gone[verifrt.Choice("removed", len(gone))])
	v, err := z.serv.GetVersion("b/a", -1)
	if len(left) == 0 {
		verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "an object without versions has no latest version")
		verifrt.Reach("none")
	} else {
		last := left[len(left)-1]
		verifrt.Assert(err == nil && v.Sequence == uint64(last) && v.Size == int64(last), "the latest version is the one with the highest number")
		m, v2, err := z.serv.GetMetadata("b/a", 0, true)
		verifrt.Assert(err == nil && v2 != nil && v2.Sequence == uint64(last), "reading an object shows its latest version")
		verifrt.Assert(m.Extra != nil && m.Extra.Total == len(left) && m.Extra.FirstVersion == left[0] && m.Extra.LastVersion == last, "the version summary is exact")
		m, v2, err = z.serv.GetMetadata("b/a", -1, false)
		verifrt.Assert(err == nil && v2 == nil && m.Extra == nil, "an object read without versions shows none")
		m, v2, err = z.serv.GetMetadata("b/a", left[0], false)
		verifrt.Assert(err == nil && v2 != nil && v2.Sequence == uint64(left[0]), "an object read with a version shows that version")
		verifrt.Assert(z.repo.GetFirstVersionNumber("b/a") == uint64(left[0]), "the first version is the one with the lowest number")
		verifrt.Reach("some")
	}
	for i := 1; i <= n; i++ {
		v, err := z.serv.GetVersion("b/a", i)
		if live[i] {
			verifrt.Assert(err == nil && v.Sequence == uint64(i) && v.Size == int64(i), "each version reads as it was stored")
		} else {
			verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "a removed version is not found")
		}
	}
}

// Pages of any size tile the versions left in ascending order.
//
//gosym:with metaserver/internal/usecase/service/zz_verif_support.go
//gosym:harness C07 quick=90s thorough=800s
func VerifC07Pages() {
	z := newZzServer(verifrt.Choice("cache", 2) == 1)
	counts := []int{0, 1, 3, 11}
	if verifrt.Thorough() {
		counts = []int{0, 1, 2, 3, 4, 9, 10, 11, 12, 21}
	}
	n := counts[verifrt.Choice("versions", len(counts))]
	gone := []int{0, 1, 2, 9, n}
	left, _ := zzHistory(z, n, gone[verifrt.Choice("removed", len(gone))])
	page, size := verifrt.Int("page", 0, 4), verifrt.Int("size", 1, verifrt.Bound("page size", 5, 8))
	lst, total, err := z.serv.ListVersions("b/a", page, size)
	verifrt.Assert(err == nil && total == len(left), "the total counts all versions")
	if page == 0 {
		page = 1
	}
	from := (page - 1) * size
	want := 0
	for i := range left {
		if i >= from && i < from+size {
			verifrt.Assert(want < len(lst) && lst[want].Sequence == uint64(left[i]) && lst[want].Size == int64(left[i]), "a page shows its versions in ascending order")
			want++
		}
	}
	verifrt.Assert(len(lst) == want, "a page shows nothing else")
	verifrt.Reach("page")
}

// Versions are found by hash, over all objects, exactly while they exist.
//
//gosym:harness C08 quick=90s thorough=800s
func VerifC08FindByHash() {
	z := newZzServer(verifrt.Choice("cache", 2) == 1)
	ids := []string{"b/a", "b/a.1"}
	type key struct {
		id  string
		seq int
	}
	live := map[key]string{}
	for _, id := range ids {
		verifrt.Assert(z.serv.AddMetadata(id, &msg.Metadata{Name: id, Bucket: "b"}) == nil, "adding a new object succeeds")
	}
	for i := 0; i < verifrt.Bound("versions", 3, 4); i++ {
		id, h := ids[verifrt.Choice("object", 2)], []string{"h1", "h2"}[verifrt.Choice("hash", 2)]
		seq, err := z.serv.AddVersion(id, zzVersion(h, int64(i)))
		verifrt.Assert(err == nil, "adding a new version succeeds")
		live[key{id, seq}] = h
	}
	id := ids[verifrt.Choice("from", 2)]
	switch verifrt.Choice("remove", 4) {
	case 1:
		if live[key{id, 1}] != "" {
			verifrt.Assert(z.serv.RemoveVersion(id, 1) == nil, "removing a version succeeds")
			delete(live, key{id, 1})
		}
	case 2:
		verifrt.Assert(z.serv.RemoveVersion(id, -1) == nil, "removing all versions succeeds")
		for k := range live {
			if k.id == id {
				delete(live, k)
			}
		}
	case 3:
		verifrt.Assert(z.serv.RemoveMetadata(id) == nil, "removing an object succeeds")
		for k := range live {
			if k.id == id {
				delete(live, k)
			}
		}
	}
	verifrt.Advance(3000000)
	for _, h := range []string{"h1", "h2"} {
		n := 0
		for _, v := range live {
			if v == h {
				n++
			}
		}
		vs, err := z.serv.FindByHash(h)
		verifrt.Assert(err == nil && len(vs) == n, "every version is found by its hash and no other")
		for _, v := range vs {
			verifrt.Assert(v.Hash == h, "versions found by hash have it")
		}
		verifrt.Assert(z.serv.UpdateLocates(h, 1, "s9") == nil, "moving a shard succeeds")
		vs, err = z.serv.FindByHash(h)
		verifrt.Assert(err == nil && len(vs) == n, "every version is found by its hash after moving a shard")
		for _, v := range vs {
			verifrt.Assert(len(v.Locate) == 2 && v.Locate[0] == "s1" && v.Locate[1] == "s9", "the moved shard is shown")
		}
	}
	verifrt.Reach("end")
}

// Versions may also arrive with a number from another server, in any order; new versions still get new numbers.
//
//gosym:with metaserver/internal/usecase/service/zz_verif_support.go
//gosym:harness C07 quick=90s thorough=800s
func VerifC07Imported() {
	z := newZzServer(verifrt.Choice("cache", 2) == 1)
	verifrt.Assert(z.serv.AddMetadata("b/a", &msg.Metadata{Name: "a", Bucket: "b"}) == nil, "adding a new object succeeds")
	live := map[int]int64{}
	used := map[int]bool{}
	highest := 0
	numbers := []int{1, 2, 3, 10, 11}
	for i := 1; i <= verifrt.Bound("steps", 3, 4); i++ {
		switch op := verifrt.Choice("step", 2+len(numbers)); op {
		case 0:
			seq, err := z.serv.AddVersion("b/a", zzVersion("h", int64(i)))
			verifrt.Assert(err == nil && !used[seq] && seq > highest, "a new version gets a number above all that were ever used")
			live[seq], used[seq], highest = int64(i), true, seq
			verifrt.Reach("added")
		case 1:
			if highest > 0 && live[highest] != 0 {
				verifrt.Assert(z.serv.RemoveVersion("b/a", highest) == nil, "removing a version succeeds")
				delete(live, highest)
			}
		default:
			n := numbers[op-2]
			if used[n] {
				continue
			}
			v := zzVersion("h", int64(i))
			v.Sequence, v.UniqueId = uint64(n), string(rune(64+i))
			verifrt.Assert(z.serv.ReceiveVersion("b/a", v) == nil, "receiving a version succeeds")
			live[n], used[n] = int64(i), true
			if n > highest {
				highest = n
			}
			verifrt.Reach("received")
		}
	}
	last := 0
	for n := 1; n <= 20; n++ {
		v, err := z.serv.GetVersion("b/a", n)
		if live[n] != 0 {
			verifrt.Assert(err == nil && v.Sequence == uint64(n) && v.Size == live[n], "each version reads as it was stored")
			last = n
		} else {
			verifrt.Assert(errors.Is(err, usecase.ErrNotFound), "a version that was never stored or is removed is not found")
		}
	}
	if v, err := z.serv.GetVersion("b/a", -1); last > 0 {
		verifrt.Assert(err == nil && v.Sequence == uint64(last), "the latest version is the one with the highest number")
	}
	lst, total, err := z.serv.ListVersions("b/a", 1, 20)
	verifrt.Assert(err == nil && total == len(live) && len(lst) == len(live), "a page shows all versions")
	for i := 1; i < len(lst); i++ {
		verifrt.Assert(lst[i-1].Sequence < lst[i].Sequence, "a page shows its versions in ascending order")
	}
}
