package request

import "common/verifrt"

func zzNum(s string) (v int64, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		v = v*10 + int64(s[i]-'0')
	}
	return v, len(s) > 0
}

// A well formed Range header yields exactly the listed ranges; any other text is rejected and nothing panics.
//
//gosym:harness C13 quick=60s thorough=600s
func VerifC13Range() {
	n := verifrt.Choice("len", verifrt.Bound("bytes after bytes=", 4, 6)+1)
	body := verifrt.AnyString("text", n)
	for i := 0; i < n; i++ {
		c := body[i]
		verifrt.Assume(verifrt.Or(verifrt.And('0' <= c, c <= '9'), verifrt.Or(c == '-', verifrt.Or(c == ',', c == 'x'))))
	}
	var rg Range
	ok := rg.ConvertFrom("bytes=" + body)
	// reference: comma separated first-last with at least one of the two numbers
	var want []Int64Tuple
	good := true
	start := 0
	for i := 0; i <= n && good; i++ {
		if i < n && body[i] != ',' {
			continue
		}
		part := body[start:i]
		start = i + 1
		dash := -1
		for j := 0; j < len(part); j++ {
			if part[j] == '-' {
				dash = j
				break
			}
		}
		if dash < 0 {
			// goodfs also takes a bare offset
			v, k := zzNum(part)
			good = good && (k || part == "")
			want = append(want, Int64Tuple{v, 0})
			continue
		}
		a, b := part[:dash], part[dash+1:]
		va, ka := zzNum(a)
		vb, kb := zzNum(b)
		good = good && (ka || a == "") && (kb || b == "")
		want = append(want, Int64Tuple{va, vb})
	}
	verifrt.Assert(ok == good, "a Range header is accepted exactly when every number in it is well formed")
	if ok {
		verifrt.Assert(len(rg.Bytes) == len(want), "every listed range is returned")
		for i := range want {
			verifrt.Assert(rg.Bytes[i].First == want[i].First, "the first byte position is the one in the header")
			verifrt.Assert(rg.Bytes[i].Second == want[i].Second, "the last byte position is the one in the header")
		}
		f, has := rg.GetFirstBytes()
		verifrt.Assert(has && f == rg.FirstBytes() && f.First == want[0].First, "the first range of the list is the one used")
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("rejected")
	}
}

// Text that does not begin with the unit "bytes=" is not a byte range.
//
//gosym:harness C13 quick=30s thorough=300s
func VerifC13RangeUnit() {
	n := verifrt.Choice("len", verifrt.Bound("prefix bytes", 2, 3)+1)
	p := verifrt.AnyString("prefix", n)
	var rg Range
	ok := rg.ConvertFrom(p + "bytes=7-9")
	verifrt.Assert(ok == (n == 0), "a Range header must start with bytes=")
	verifrt.Assert(!rg.ConvertFrom(verifrt.AnyString("short", verifrt.Choice("k", 6))), "text shorter than the unit is rejected")
	verifrt.Reach("end")
}

// A position that does not fit is refused, never wrapped around.
//
//gosym:harness C13 quick=60s thorough=300s
func VerifC13RangeLarge() {
	k := []int{1, 10, 18, 19, 20}[verifrt.Choice("digits", 5)]
	// any first and last two digits around the first number that does not fit
	const over = "92233720368547758080"
	d := over[:k]
	if k > 4 {
		d = verifrt.AnyString("first", 2) + over[2:k-2] + verifrt.AnyString("last", 2)
	} else {
		d = verifrt.AnyString("first", k)
	}
	var hi, lo uint64 // the number is hi * 10^10 + lo
	for i := 0; i < k; i++ {
		verifrt.Assume(verifrt.And('0' <= d[i], d[i] <= '9'))
		if k-i > 10 {
			hi = hi*10 + uint64(d[i]-'0')
		} else {
			lo = lo*10 + uint64(d[i]-'0')
		}
	}
	second := verifrt.Choice("position", 2) == 1
	head := d + "-"
	if second {
		head = "3-" + d
	}
	var rg Range
	ok := rg.ConvertFrom("bytes=" + head)
	fits := verifrt.Or(hi < 922337203, verifrt.And(hi == 922337203, lo < 6854775808))
	verifrt.Assert(ok == fits, "a position is accepted exactly when it fits into 63 bits")
	if ok {
		got := rg.FirstBytes().First
		if second {
			got = rg.FirstBytes().Second
		}
		verifrt.Assert(uint64(got) == hi*10000000000+lo, "the position is the one in the header")
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("refused")
	}
}
