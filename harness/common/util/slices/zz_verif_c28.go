package slices

import "common/verifrt"

// SafeChunk returns the elements from start to end, both inclusive, negative positions counting from the tail.
//
//gosym:harness C28 quick=40s thorough=300s
func VerifC28Chunk() {
	n := verifrt.Choice("len", verifrt.Bound("slice length", 5, 8))
	arr := make([]int, n)
	for i := range arr {
		arr[i] = i
	}
	st := verifrt.Int("start", -n, n+2)
	ed := verifrt.Int("end", -n, n+2)
	res := SafeChunk(arr, st, ed)
	if n == 0 {
		verifrt.Assert(len(res) == 0, "a chunk of nothing is empty")
		return
	}
	norm := func(i int) int {
		if i < 0 {
			i += n
		}
		if i >= n {
			i = n - 1
		}
		return i
	}
	a, b := norm(st), norm(ed)
	if a > b {
		a, b = b, a
	}
	verifrt.Assert(len(res) == b-a+1, "a chunk holds exactly the positions between start and end")
	verifrt.Assert(res[0] == a && res[len(res)-1] == b, "a chunk starts and ends at the requested positions")
	verifrt.Reach("end")
}

// Fill and FillPattern set every element; Search and ExtremalIndex find what they are asked for.
//
//gosym:harness C28 quick=40s thorough=300s
func VerifC28Fill() {
	n := verifrt.Choice("len", verifrt.Bound("slice length", 6, 12))
	arr := make([]byte, n)
	v := verifrt.AnyByte("v")
	Fill(arr, v)
	for i := range arr {
		verifrt.Assert(arr[i] == v, "Fill sets every element")
	}
	m := 1 + verifrt.Choice("pattern", 3)
	pat := verifrt.AnyBytes("p", m)
	FillPattern(arr, pat)
	for i := range arr {
		verifrt.Assert(arr[i] == pat[i%m], "FillPattern repeats the pattern")
	}
	verifrt.Reach("end")
}

//gosym:harness C28 quick=40s thorough=300s
func VerifC28Search() {
	n := verifrt.Choice("len", verifrt.Bound("slice length", 5, 7))
	arr := make([]int, n)
	for i := range arr {
		arr[i] = verifrt.AnyInt("v")
	}
	t := verifrt.AnyInt("target")
	i := Search(arr, t)
	if i >= 0 {
		verifrt.Assert(arr[i] == t, "Search returns a position of the target")
		for j := 0; j < i; j++ {
			verifrt.Assert(arr[j] != t, "Search returns the first position")
		}
		verifrt.Reach("found")
	} else {
		for _, x := range arr {
			verifrt.Assert(x != t, "Search misses nothing")
		}
		verifrt.Reach("missing")
	}
	if n > 0 {
		mx := Extremal(arr, func(ex, cur int) bool { return cur > ex })
		for _, x := range arr {
			verifrt.Assert(x <= mx, "Extremal returns an extremal element")
		}
	}
}
