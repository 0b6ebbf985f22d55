package hashslot

import "common/verifrt"

// zzValid builds n non-empty ranges; ordered and disjoint when asked.
func zzValid(tag string, n int, disjoint bool) (EdgeList, []Edge) {
	el := zz2Edges(n, MaxSlot+1, tag)
	ref := make([]Edge, n)
	for i, e := range el {
		ref[i] = *e
		verifrt.Assume(e.Start < e.End)
		if disjoint && i > 0 {
			verifrt.Assume(ref[i-1].End <= e.Start)
		}
	}
	return el, ref
}

func zz2Edges(n, hi int, tag string) EdgeList {
	names := []string{"A", "B", "C", "D", "E", "F"}
	el := make(EdgeList, 0, n)
	for i := 0; i < n; i++ {
		s := verifrt.Int(tag+"s", 0, hi)
		e := verifrt.Int(tag+"e", 0, hi)
		el = append(el, &Edge{Start: s, End: e, Value: names[i]})
	}
	return el
}

func zzHas(ref []Edge, x int) bool {
	r := false
	for _, e := range ref {
		r = verifrt.Or(r, verifrt.And(e.Start <= x, x < e.End))
	}
	return r
}

func zzDeref(el EdgeList) []Edge {
	r := make([]Edge, len(el))
	for i, e := range el {
		r[i] = *e
	}
	return r
}

// CombineEdges is set union, normalised to ordered ranges that neither overlap nor touch.
//
//gosym:harness C02 quick=40s thorough=600s
func VerifC02Combine() {
	b := verifrt.Bound("ranges of the first set", 2, 3)
	a, ra := zzValid("a", verifrt.Choice("na", b+1), false)
	d, rd := zzValid("d", verifrt.Choice("nd", verifrt.Bound("ranges of the second set", 2, 2)+1), false)
	x := verifrt.Int("slot", 0, MaxSlot)
	res := zzDeref(CombineEdges(a, d))
	verifrt.Assert(zzHas(res, x) == verifrt.Or(zzHas(ra, x), zzHas(rd, x)), "combining keeps exactly the slots of both sets")
	for i := range res {
		verifrt.Assert(res[i].Start < res[i].End, "combined ranges are non-empty")
		if i > 0 {
			verifrt.Assert(res[i-1].End < res[i].Start, "combined ranges are ordered, disjoint and merged when adjacent")
			verifrt.Reach("several")
		}
	}
	verifrt.ObserveInt("n", len(res))
	verifrt.Reach("end")
}

// RemoveEdges is set difference and keeps the owner of what remains.
//
//gosym:harness C02 quick=40s thorough=600s
func VerifC02Remove() {
	b := verifrt.Bound("ranges per side", 2, 3)
	a, ra := zzValid("a", verifrt.Choice("na", b+1), true)
	d, rd := zzValid("d", verifrt.Choice("nd", b+2), false)
	x := verifrt.Int("slot", 0, MaxSlot)
	res := zzDeref(RemoveEdges(a, d))
	verifrt.Assert(zzHas(res, x) == verifrt.And(zzHas(ra, x), !zzHas(rd, x)), "removing takes away exactly the removed slots")
	for _, e := range res {
		verifrt.Assert(e.Start < e.End, "remaining ranges are non-empty")
		var own []Edge
		for _, o := range ra {
			if o.Value == e.Value {
				own = append(own, o)
			}
		}
		verifrt.Assert(verifrt.Implies(verifrt.And(e.Start <= x, x < e.End), zzHas(own, x)), "remaining slots keep their owner")
	}
	verifrt.ObserveInt("n", len(res))
	verifrt.Reach("end")
}

// FindRangeCurrentData returns exactly the owned part of a range, with owners, and says whether the range
// is fully owned; IsValidEdge holds only for a range owned by the named server alone.
//
//gosym:harness C02 quick=40s thorough=600s
func VerifC02FindRange() {
	n := verifrt.Choice("n", verifrt.Bound("ranges", 3, 5)+1)
	el, ref := zzValid("", n, true)
	p := &EdgeProvider{el}
	start := verifrt.Int("start", 0, MaxSlot)
	end := verifrt.Int("end", 1, MaxSlot+1)
	verifrt.Assume(start < end)
	x := verifrt.Int("slot", 0, MaxSlot)
	inr := verifrt.And(start <= x, x < end)
	list, fully := FindRangeCurrentData(start, end, p)
	res := zzDeref(list)
	verifrt.Assert(zzHas(res, x) == verifrt.And(zzHas(ref, x), inr), "the reported parts are exactly the owned slots of the range")
	for _, e := range res {
		var own []Edge
		for _, o := range ref {
			if o.Value == e.Value {
				own = append(own, o)
			}
		}
		verifrt.Assert(verifrt.Implies(verifrt.And(e.Start <= x, x < e.End), zzHas(own, x)), "each reported part names its owner")
	}
	if fully {
		verifrt.Assert(verifrt.Implies(inr, zzHas(ref, x)), "a fully owned range has no unowned slot")
		verifrt.Reach("fully")
	} else {
		covered := 0
		for _, e := range ref {
			lo := verifrt.IteInt(e.Start < start, start, e.Start)
			hi := verifrt.IteInt(e.End < end, e.End, end)
			covered += verifrt.IteInt(lo < hi, hi-lo, 0)
		}
		verifrt.Assert(covered < end-start, "a range reported as not fully owned has an unowned slot")
		verifrt.Reach("partly")
	}
	if n > 0 {
		k := verifrt.Choice("owner", n)
		ok := IsValidEdge(&Edge{Start: start, End: end, Value: ref[k].Value}, p)
		alone := verifrt.And(ref[k].Start <= start, end <= ref[k].End)
		verifrt.Assert(ok == alone, "a range is valid for a server exactly when that server alone owns it")
	}
}
