package hashslot

import (
	"common/verifrt"
	"errors"
	"strconv"
)

var zzNames = []string{"A", "B", "C", "D", "E", "F", "G", "H"}

func zzEdges(n, hi int, tag string) EdgeList {
	el := make(EdgeList, 0, n)
	for i := 0; i < n; i++ {
		s := verifrt.Int(tag+"s", 0, hi)
		e := verifrt.Int(tag+"e", 0, hi)
		el = append(el, &Edge{Start: s, End: e, Value: zzNames[i]})
	}
	return el
}

func zzIn(x int, s, e int) bool { return verifrt.And(s <= x, x < e) }

// A slot table is accepted iff every range is non-empty and no two ranges share a slot; in an accepted
// table every slot is owned by exactly the range that contains it, and slots in no range are refused.
//
//gosym:harness C01 quick=40s thorough=600s
func VerifC01Lookup() {
	n := verifrt.Choice("n", verifrt.Bound("ranges", 4, 6)+1)
	el := zzEdges(n, MaxSlot+1, "")
	ref := make([]Edge, n)
	for i, e := range el {
		ref[i] = *e
	}
	legal := true
	for i := range ref {
		legal = verifrt.And(legal, ref[i].Start < ref[i].End)
		for j := 0; j < i; j++ {
			legal = verifrt.And(legal, verifrt.Or(ref[i].End <= ref[j].Start, ref[j].End <= ref[i].Start))
		}
	}
	err := sortAndValidate(el)
	verifrt.Assert((err == nil) == legal, "a slot table is accepted exactly when its ranges are non-empty and disjoint")
	if err != nil {
		verifrt.Reach("rejected")
		if errors.Is(err, ErrOverlap) {
			verifrt.Reach("overlap")
		}
		return
	}
	p := &EdgeProvider{el}
	x := verifrt.Int("slot", 0, MaxSlot)
	got, e2 := GetSlotIdentify(x, p)
	owner := -1
	for i := range ref {
		owner = verifrt.IteInt(zzIn(x, ref[i].Start, ref[i].End), i, owner)
	}
	if e2 != nil {
		verifrt.Assert(owner == -1, "a slot inside a range is found")
		verifrt.Assert(!IsSlotInEdges(x, el), "IsSlotInEdges agrees with GetSlotIdentify")
		verifrt.Reach("not-owned")
		return
	}
	verifrt.Reach("owned")
	verifrt.Assert(owner != -1, "a slot in no range is refused")
	verifrt.Assert(got == zzNames[verifrt.Conc(owner)], "a slot is owned by the range that contains it")
	verifrt.Assert(IsSlotInEdges(x, el), "IsSlotInEdges agrees with GetSlotIdentify")
	verifrt.ObserveStr("owner", got)
}

// Slot strings "a-b" as stored and sent between servers are read back as the same range, for the whole
// table, and text that is not two non-negative decimal numbers is refused.
//
//gosym:harness C01 quick=30s thorough=200s
func VerifC01Parse() {
	k := verifrt.Choice("len", verifrt.Bound("slot text bytes", 5, 6)+1)
	s := verifrt.AnyString("txt", k)
	start, end, err := formatInt(s)
	// reference
	dash, dashes := -1, 0
	okc := true
	for i := 0; i < k; i++ {
		if s[i] == '-' {
			dash = i
			dashes++
		} else if !(s[i] >= '0' && s[i] <= '9') && s[i] != '+' {
			okc = false
		}
	}
	if err != nil {
		verifrt.Reach("refused")
		bad := dashes != 1 || !okc || dash == 0 || dash == k-1
		if !bad {
			for i := 0; i < k; i++ {
				if s[i] == '+' {
					bad = true
				}
			}
		}
		verifrt.Assert(bad, "a well-formed slot range is accepted")
		return
	}
	verifrt.Reach("accepted")
	verifrt.Assert(dashes == 1 && okc, "malformed slot text is refused")
	num := func(t string) int {
		v := 0
		for i := 0; i < len(t); i++ {
			if t[i] != '+' {
				v = v*10 + int(t[i]-'0')
			}
		}
		return v
	}
	verifrt.Assert(start == num(s[:dash]), "slot range start")
	verifrt.Assert(end == num(s[dash+1:]), "slot range end")
	verifrt.ObserveInt("start", start)
	verifrt.ObserveInt("end", end)
}

// Whole tables given as text: whatever order and grouping the servers and ranges come in (Go map order
// included), each slot is owned by the server that listed it.
//
//gosym:harness C01 quick=30s thorough=200s
func VerifC01Table() {
	verifrt.MapOrder(true)
	cut1 := 1 + verifrt.Choice("c1", 3)
	cut2 := cut1 + 1 + verifrt.Choice("c2", 3)
	cut3 := cut2 + 1 + verifrt.Choice("c3", 2)
	f := func(a, b int) string { return strconv.Itoa(a*1000) + "-" + strconv.Itoa(b*1000) }
	m := map[string][]string{
		"A": {f(cut2, cut3), f(0, cut1)},
		"B": {f(cut1, cut2)},
	}
	p, err := WrapSlots(m)
	verifrt.Assert(err == nil, "a disjoint table is accepted")
	x := verifrt.Int("slot", 0, MaxSlot)
	got, e2 := GetSlotIdentify(x, p)
	if e2 != nil {
		verifrt.Assert(x >= cut3*1000, "a slot inside a range is found")
		return
	}
	verifrt.Reach("found")
	inB := zzIn(x, cut1*1000, cut2*1000)
	verifrt.Assert((got == "B") == inB, "a slot is owned by the server that listed it")
	verifrt.Assert(x < cut3*1000, "a slot in no range is refused")
	a := CopyOfEdges("A", p)
	verifrt.Assert(IsSlotInEdges(x, a) == !inB, "CopyOfEdges holds exactly the ranges of the server")
	m["B"] = append(m["B"], f(0, 1))
	_, err = WrapSlots(m)
	verifrt.Assert(err != nil, "an overlapping table is refused")
}
