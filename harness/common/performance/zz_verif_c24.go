package performance

import (
	"common/verifrt"
	_ "common/verifrt/boltm"
	"errors"
	"path/filepath"
	"time"
)

// zzSame tells whether both lists hold the same records, in any order.
func zzSame(got, want []*Perform) bool {
	if len(got) != len(want) {
		return false
	}
	ok := true
	count := func(in []*Perform, x *Perform) int {
		n := 0
		for _, y := range in {
			if y.KindOf == x.KindOf && y.Action == x.Action {
				n += verifrt.IteInt(y.Cost == x.Cost, 1, 0)
			}
		}
		return n
	}
	for _, x := range want {
		ok = verifrt.And(ok, count(got, x) == count(want, x))
	}
	return ok
}

func zzSelect(all []*Perform, kind, action string) (res []*Perform) {
	for _, x := range all {
		if (kind == "" || x.KindOf == kind) && (action == "" || x.Action == action) {
			res = append(res, x)
		}
	}
	return
}

// zzGroups has one record for every kind and action, made by f of their costs.
func zzGroups(all []*Perform, f func(sum time.Duration, n int) time.Duration) (res []*Perform) {
	for i, x := range all {
		first := true
		for _, y := range all[:i] {
			first = first && (x.KindOf != y.KindOf || x.Action != y.Action)
		}
		if first {
			var sum time.Duration
			g := zzSelect(all, x.KindOf, x.Action)
			for _, y := range g {
				sum += y.Cost
			}
			res = append(res, &Perform{x.KindOf, x.Action, f(sum, len(g))})
		}
	}
	return
}

func zzCheck(s Store, all []*Perform, kinds, actions []string) {
	for _, kind := range append([]string{""}, kinds...) {
		for _, action := range append([]string{""}, actions...) {
			want := zzSelect(all, kind, action)
			got, err := s.Get(kind, action)
			verifrt.Assert(err == nil, "records are listed")
			verifrt.Assert(zzSame(got, want), "the records of a kind and an action are those that were stored")
			n, err := s.Size(kind, action)
			verifrt.Assert(err == nil && n == int64(len(want)), "the number of records is counted")
			got, err = s.Sum(kind, action)
			verifrt.Assert(err == nil && zzSame(got, zzGroups(want, func(s time.Duration, n int) time.Duration { return s })), "there is one sum for every kind and action")
			got, err = s.Average(kind, action)
			verifrt.Assert(err == nil && zzSame(got, zzGroups(want, func(s time.Duration, n int) time.Duration { return s / time.Duration(n) })), "there is one average for every kind and action")
		}
	}
}

// Storing and clearing records in any order leaves those stored and not cleared, by kind and by action.
//
//gosym:harness C24 quick=60s thorough=600s
func VerifC24Store() {
	s := NewLocalStore(filepath.Join(verifrt.TempDir(), "perf", "a.perf"))
	kinds, actions := []string{"http", "http-2.x"}, []string{"read", "read.all"}
	var all []*Perform
	k := verifrt.Bound("operations", 3, 4)
	for i := 0; i < k; i++ {
		switch verifrt.Choice("operation", 2) {
		case 0:
			a := &Perform{kinds[verifrt.Choice("kind", 2)], actions[verifrt.Choice("action", 2)], time.Duration(verifrt.Int("cost", 128, 16383))}
			b := &Perform{"http", "read", time.Duration(i + 1)}
			verifrt.Assert(s.Put([]*Perform{a, b}) == nil, "records are stored")
			all = append(all, a, b)
		case 1:
			kind := append(kinds, "")[verifrt.Choice("kind", 3)]
			action := append(actions, "")[verifrt.Choice("action", 3)]
			verifrt.Assert(s.Clear(kind, action) == nil, "records are cleared")
			var left []*Perform
			for _, x := range all {
				if kind != "" && x.KindOf != kind || action != "" && x.Action != action {
					left = append(left, x)
				}
			}
			all = left
		}
	}
	zzCheck(s, all, append(kinds, "none"), append(actions, "none"))
	verifrt.Reach("end")
}

// A cost of any size is read as it was stored.
//
//gosym:harness C24 quick=20s thorough=60s
func VerifC24Cost() {
	s := NewLocalStore(filepath.Join(verifrt.TempDir(), "a.perf"))
	all := []*Perform{{"http", "read", time.Duration(verifrt.AnyInt64("cost"))}, {"grpc", "read", 7}}
	verifrt.Assert(s.Put(all) == nil, "records are stored")
	got, err := s.Get("", "read")
	verifrt.Assert(err == nil && zzSame(got, all), "the records of an action are those that were stored")
	got, err = s.Sum("http", "read")
	verifrt.Assert(err == nil && zzSame(got, all[:1]), "the sum of one record is its cost")
	verifrt.Reach("end")
}

// zzStore keeps what is stored in it, and may be out of order.
type zzStore struct {
	Store
	all  []Perform
	fail bool
}

var errZz = errors.New("store is out of order")

func (s *zzStore) Put(data []*Perform) error {
	if s.fail {
		return errZz
	}
	for _, x := range data {
		s.all = append(s.all, *x)
	}
	return nil
}

// Records collected reach the store once and in order, within the interval, when the memory is full or when the collector is closed.
//
//gosym:harness C24 quick=60s thorough=600s native=off
func VerifC24Collector() {
	st := &zzStore{}
	SetLocalStore(st)
	cfg := &Config{Enable: true, Store: Local, FlushInterval: 100 * time.Millisecond, MaxInMemory: 2, FlushWhenReached: verifrt.Choice("flush when reached", 2) == 1}
	c := NewCollector(cfg)
	verifrt.Drain()
	next := 0
	var mem []int      // in memory, not stored yet
	var want []int     // stored
	flushed := int64(0) // time of the last flush
	now := int64(0)
	flush := func() bool {
		flushed = now
		if st.fail {
			return false
		}
		want, mem = append(want, mem...), nil
		return true
	}
	k := verifrt.Bound("operations", 6, 8)
	for i := 0; i < k; i++ {
		switch verifrt.Choice("operation", 4) {
		case 0:
			next++
			err := c.Put("read", "http", time.Duration(next))
			mem = append(mem, next)
			failed := false
			if len(mem) > 2 {
				failed = cfg.FlushWhenReached && !flush()
				if len(mem) > 2 {
					mem = mem[1:]
				}
			}
			verifrt.Assert((err != nil) == failed, "an error is reported when the store failed and only then")
		case 1, 2:
			d := []int64{30, 130}[verifrt.Choice("time", 2)]
			verifrt.Advance(d * 1e6)
			verifrt.Drain()
			end := now + d
			for flushed+100 <= end {
				now = flushed + 100
				flush()
			}
			now = end
			i++
		case 3:
			st.fail = !st.fail
		}
		if len(st.all) != len(want) {
			break
		}
	}
	zz := func(msg string) {
		verifrt.Assert(len(st.all) == len(want), msg)
		for i, x := range st.all {
			verifrt.Assert(x.KindOf == "http" && x.Action == "read" && x.Cost == time.Duration(want[i]), "records are stored once, in order and as they were put")
		}
	}
	zz("records are stored within the interval or when the memory is full")
	failed := !flush()
	verifrt.Assert((c.Close() != nil) == failed, "closing reports whether the records were stored")
	zz("closing stores the records")
	st.fail = false
	verifrt.Advance(1e9)
	verifrt.Drain()
	verifrt.Assert(len(st.all) == len(want), "a closed collector stores nothing any more")
	verifrt.Reach("end")
}

// Without collection, or without a store, nothing is kept and nothing fails.
//
//gosym:harness C24 quick=20s thorough=60s
func VerifC24None() {
	st := &zzStore{}
	SetLocalStore(st)
	cfg := &Config{Enable: verifrt.Choice("enabled", 2) == 1, Store: None, FlushInterval: time.Second, MaxInMemory: 2}
	if !cfg.Enable {
		cfg.Store = Local
	}
	c := NewCollector(cfg)
	for i := 0; i < 4; i++ {
		verifrt.Assert(c.Put("read", "http", 1) == nil, "a record is accepted")
	}
	c.PutAsync("read", "http", 1)
	verifrt.Drain()
	verifrt.Assert(c.Flush() == nil, "flushing succeeds")
	n, err := c.Store().Size("", "")
	verifrt.Assert(n == 0 && err == nil && len(st.all) == 0, "nothing is kept")
	got, err := c.Store().Average("", "")
	verifrt.Assert(len(got) == 0 && err == nil, "there is nothing to average")
	verifrt.Assert(c.Close() == nil, "closing succeeds")
	verifrt.Reach("end")
}
