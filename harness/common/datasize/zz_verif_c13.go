package datasize

import (
	"common/verifrt"
	"math/bits"
)

func zzLow(b byte) byte {
	if 'A' <= b && b <= 'Z' {
		return b + 32
	}
	return b
}

// zzRef is the documented grammar: decimal digits, then an optional unit B KB MB GB TB PB in any case.
func zzRef(s string) (num uint64, shift uint, ok bool) {
	i := 0
	for i < len(s) && '0' <= s[i] && s[i] <= '9' {
		num = num*10 + uint64(s[i]-'0')
		i++
	}
	if i == 0 {
		return 0, 0, false
	}
	switch len(s) - i {
	case 0:
		return num, 0, true
	case 1:
		return num, 0, zzLow(s[i]) == 'b'
	case 2:
		if zzLow(s[i+1]) != 'b' {
			return 0, 0, false
		}
		switch zzLow(s[i]) {
		case 'k':
			return num, 10, true
		case 'm':
			return num, 20, true
		case 'g':
			return num, 30, true
		case 't':
			return num, 40, true
		case 'p':
			return num, 50, num < 1024
		}
	}
	return 0, 0, false
}

// Parse accepts exactly the documented grammar and computes number times unit.
//
//gosym:harness C13 quick=60s thorough=600s
func VerifC13Size() {
	n := verifrt.Choice("len", verifrt.Bound("text bytes", 4, 5)+1)
	s := verifrt.AnyString("text", n)
	for i := 0; i < n; i++ {
		verifrt.Assume(s[i] < 128)
	}
	v, err := Parse(s)
	num, shift, ok := zzRef(s)
	verifrt.Assert((err == nil) == ok, "Parse accepts exactly digits followed by an optional known unit")
	if err == nil {
		verifrt.Assert(uint64(v) == num<<shift, "Parse returns number times unit")
		verifrt.Reach("accepted")
	} else {
		verifrt.Reach("rejected")
	}
}

// A number too large for its unit is an error, never a wrapped-around size.
//
//gosym:harness C13 quick=60s thorough=600s
func VerifC13SizeLarge() {
	digits := 1 + verifrt.Choice("digits", verifrt.Bound("digits", 12, 18))
	u := verifrt.Choice("unit", 6)
	names := []string{"B", "kb", "MB", "Gb", "tB", "PB"}
	d := verifrt.AnyString("d", digits)
	var num uint64
	for i := 0; i < digits; i++ {
		verifrt.Assume(verifrt.And('0' <= d[i], d[i] <= '9'))
		num = num*10 + uint64(d[i]-'0')
	}
	v, err := Parse(d + names[u])
	hi, lo := bits.Mul64(num, uint64(1)<<uint(10*u))
	if err == nil {
		verifrt.Assert(hi == 0, "a size that does not fit into 64 bits is rejected")
		verifrt.Assert(uint64(v) == lo, "Parse returns number times unit")
		verifrt.Reach("accepted")
	} else {
		verifrt.Assert(verifrt.Or(hi != 0, verifrt.And(u == 5, num >= 1024)), "a size that fits is accepted")
		verifrt.Reach("rejected")
	}
}

// A size written to a configuration file is read back as the same size.
//
//gosym:harness C13 quick=60s thorough=300s
func VerifC13Written() {
	n := uint64(verifrt.Int("number", 0, verifrt.Bound("number", 1100, 5000)))
	d := DataSize(n << (10 * uint(verifrt.Choice("unit", 5))))
	v, err := d.MarshalYAML()
	verifrt.Assert(err == nil, "writing a size succeeds")
	s, ok := v.(string)
	verifrt.Assert(ok, "a size is written as text")
	var back DataSize
	verifrt.Assert(back.SetValue(s) == nil, "a written size can be read")
	verifrt.Assert(back == d, "a written size is read back as the same size")
	verifrt.Reach("end")
}

// Showing any size ends in a text with a unit.
//
//gosym:harness C13 quick=20s thorough=60s
func VerifC13Shown() {
	sizes := []DataSize{0, 1, 1023, KB, KB + 1, MB, 3 * GB, 5 * TB, PB, 1000 * PB, 1 << 63, 1<<64 - 1}
	s := sizes[verifrt.Choice("size", len(sizes))].String()
	verifrt.Assert(len(s) > 1 && s[len(s)-1] == 'B', "a size is shown with its unit")
	verifrt.Reach("end")
}

// Numbers around and beyond 64 bits are exact or refused.
//
//gosym:harness C13 quick=60s thorough=300s
func VerifC13SizeHuge() {
	mids := []string{"92233720368547758", "18446744073709551", "99999999999999999", "00000000000000000"}
	s := verifrt.AnyString("head", 1) + mids[verifrt.Choice("middle", len(mids))] + verifrt.AnyString("tail", verifrt.Choice("tail digits", 5))
	var hi, lo uint64
	for i := 0; i < len(s); i++ {
		verifrt.Assume(verifrt.And('0' <= s[i], s[i] <= '9'))
		h, l := bits.Mul64(lo, 10)
		var c uint64
		lo, c = bits.Add64(l, uint64(s[i]-'0'), 0)
		hi = hi*10 + h + c
	}
	v, err := Parse(s + []string{"", "B"}[verifrt.Choice("unit", 2)])
	if err == nil {
		verifrt.Assert(verifrt.And(hi == 0, uint64(v) == lo), "a number beyond 64 bits is refused")
		verifrt.Reach("accepted")
	} else {
		verifrt.Assert(verifrt.Or(hi != 0, lo >= 1<<63), "a size that fits is accepted")
		verifrt.Reach("rejected")
	}
}
