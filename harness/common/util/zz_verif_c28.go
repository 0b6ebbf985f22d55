package util

import "common/verifrt"

// A page is a valid slice range of at most size items, and consecutive pages tile the whole list.
//
//gosym:harness C28 quick=40s thorough=300s
func VerifC28Paging() {
	total := verifrt.Int("total", 0, 1<<40)
	page := verifrt.Int("page", -1<<40, 1<<40)
	sizes := []int{1, 10, -1, 2, 3, 7, 20, 100, 1000, 1 << 40, 1<<63 - 1, -1 << 63}
	size := sizes[verifrt.Choice("size", verifrt.Bound("page sizes", 12, 12))]
	st, ed, ok := PagingOffset(page, size, total)
	if !ok {
		verifrt.Assert(st == 0 && ed == 0, "no range is returned for a page that does not exist")
		if page >= 1 && size > 0 && page-1 < 1<<20 && size < 1<<40 {
			verifrt.Assert((page-1)*size >= total, "every page with items on it exists")
		}
		verifrt.Reach("none")
		return
	}
	verifrt.Assert(0 <= st && st <= ed && ed <= total, "a page is a valid range of the list")
	verifrt.Assert(ed-st <= size && ed > st, "a page holds between one and size items")
	verifrt.Assert(ed-st == size || ed == total, "only the last page is short")
	if page == 1 {
		verifrt.Assert(st == 0, "the first page starts at the first item")
	}
	if page < 1<<20 && size < 1<<30 {
		st2, _, ok2 := PagingOffset(page+1, size, total)
		verifrt.Assert(ok2 == (ed < total), "there is a next page exactly when items remain")
		if ok2 {
			verifrt.Assert(st2 == ed, "the next page starts where this one ends")
			verifrt.Reach("next")
		}
	}
}
