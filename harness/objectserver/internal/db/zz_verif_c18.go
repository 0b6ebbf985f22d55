package db

import (
	"common/verifrt"
	"common/verifrt/badgerm"
	"os"
)

func zzOpenCache() *PathCache {
	if verifrt.Symbolic() {
		return &PathCache{db: badgerm.New()}
	}
	pc, err := NewPathCache(verifrt.TempDir() + "/paths")
	verifrt.Assert(err == nil, "the path cache opens")
	return pc
}

func zzSame(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !verifrt.EqString(got[i], want[i]) {
			return false
		}
	}
	return true
}

// zzCheck compares every read with the recorded lists.
func zzCheck(pc *PathCache, names []string, want map[string][]string) {
	n := 0
	for _, name := range names {
		w := want[name]
		n += len(w)
		got, err := pc.Get(name)
		last, lerr := pc.GetLast(name)
		if len(w) == 0 {
			verifrt.Assert(os.IsNotExist(err) && len(got) == 0, "the paths of a name without any do not exist")
			verifrt.Assert(os.IsNotExist(lerr) && last == "", "the last path of a name without any does not exist")
			continue
		}
		verifrt.Assert(err == nil && zzSame(got, w), "a name has exactly the paths put and not removed, in order")
		verifrt.Assert(lerr == nil && verifrt.EqString(last, w[len(w)-1]), "the last path is the one put last")
	}
	var all []string
	err := pc.IteratorAll(func(p string) error { all = append(all, string(append([]byte{}, p...))); return nil })
	verifrt.Assert(err == nil && len(all) == n, "iterating visits every path once")
	i := 0
	for _, name := range names { // sorted
		for _, w := range want[name] {
			verifrt.Assert(verifrt.EqString(all[i], w), "iterating visits the paths in the order of names")
			i++
		}
	}
}

func zzDrop(l []string, p string) []string {
	for i := range l {
		if l[i] == p {
			return append(append([]string{}, l[:i]...), l[i+1:]...)
		}
	}
	return l
}

// Every sequence of recording and removing paths leaves exactly the recorded ones.
//
//gosym:harness C18 quick=60s thorough=600s
func VerifC18Ops() {
	pc := zzOpenCache()
	defer pc.Close()
	names := []string{"h.0", "h.01"}
	paths := []string{"/s/h.0", "/d/s/h.0", "/d/s/h.01", "/a,b/s/h.0", "/a%2Cb/s/h.0", "/a%252Cb/s/h.0"}
	want := map[string][]string{}
	if verifrt.Choice("start", 2) == 1 {
		for _, p := range []string{paths[1], paths[0], paths[3]} {
			verifrt.Assert(pc.Put(names[0], p) == nil, "recording a path succeeds")
			want[names[0]] = append(want[names[0]], p)
		}
	}
	k := verifrt.Bound("operations", 3, 3)
	np := verifrt.Bound("paths", 4, 6)
	for i := 0; i < k; i++ {
		name := names[verifrt.Choice("name", 2)]
		op := verifrt.Choice("operation", 1+2*np)
		switch {
		case op == 0:
			verifrt.Assert(pc.RemoveAll(name) == nil, "removing all paths succeeds")
			delete(want, name)
		case op <= np:
			p := paths[op-1]
			verifrt.Assert(pc.Put(name, p) == nil, "recording a path succeeds")
			want[name] = append(append([]string{}, want[name]...), p)
		default:
			p := paths[op-1-np]
			verifrt.Assert(pc.Remove(name, p) == nil, "removing a path succeeds, recorded or not")
			want[name] = zzDrop(want[name], p)
		}
	}
	zzCheck(pc, names, want)
	verifrt.Reach("end")
}

// Paths of any bytes are kept apart and unchanged.
//
//gosym:harness C18 quick=60s thorough=600s
func VerifC18Bytes() {
	pc := zzOpenCache()
	defer pc.Close()
	n := verifrt.Bound("path bytes", 2, 3)
	pick := func() string {
		b := []byte("/")
		for i := verifrt.Choice("length", n+1); i > 0; i-- {
			// the characters that matter to the encoding, and any other one
			c := verifrt.AnyByte("path")
			verifrt.Assume(c != 0)
			b = append(b, c)
		}
		return string(b)
	}
	p, q := pick(), pick()
	want := map[string][]string{"n": {p, q}}
	verifrt.Assert(pc.Put("n", p) == nil && pc.Put("n", q) == nil, "recording a path succeeds")
	zzCheck(pc, []string{"n"}, want)
	verifrt.Assert(pc.Remove("n", p) == nil, "removing a path succeeds")
	want["n"] = []string{q}
	zzCheck(pc, []string{"n"}, want)
	verifrt.Reach("end")
}

// Two callers recording paths of one name at once: each either succeeds and is kept, or fails.
//
//gosym:harness C18 quick=60s thorough=600s native=stress
func VerifC18Concurrent() {
	pc := zzOpenCache()
	defer pc.Close()
	verifrt.Schedules(verifrt.Bound("preemptions", 2, 3))
	errs := make(chan error, 2)
	go func() { errs <- pc.Put("n", "/a") }()
	second := verifrt.Choice("second", 2)
	name := []string{"n", "m"}[second]
	err := pc.Put(name, "/b")
	first := <-errs
	verifrt.EndSchedules()
	have := func(n, p string) bool {
		l, _ := pc.Get(n)
		for _, x := range l {
			if x == p {
				return true
			}
		}
		return false
	}
	verifrt.Assert(have("n", "/a") == (first == nil), "a path is kept exactly when recording it succeeded")
	verifrt.Assert(have(name, "/b") == (err == nil), "a path is kept exactly when recording it succeeded")
	verifrt.Assert(first == nil || err == nil, "one of two writers succeeds")
	verifrt.Reach("end")
}
