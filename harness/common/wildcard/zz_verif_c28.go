package wildcard

import "common/verifrt"

// zzMatch is the textbook dynamic program over positions.
func zzMatch(p, s string) bool {
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for i := 0; i < len(p); i++ {
		next := make([]bool, len(s)+1)
		star := p[i] == '*'
		any := p[i] == '?'
		for j := 0; j <= len(s); j++ {
			v := verifrt.And(star, cur[j])
			if j > 0 {
				v = verifrt.Or(v, verifrt.And(star, next[j-1]))
				v = verifrt.Or(v, verifrt.And(verifrt.And(verifrt.Not(star), cur[j-1]), verifrt.Or(any, p[i] == s[j-1])))
			}
			next[j] = v
		}
		cur = next
	}
	return cur[len(s)]
}

// Match decides '*' (any run) and '?' (exactly one character) exactly.
//
//gosym:harness C28 quick=60s thorough=600s
func VerifC28Match() {
	b := verifrt.Bound("pattern and name characters", 3, 4)
	p := verifrt.AnyString("pattern", verifrt.Choice("np", b+1))
	s := verifrt.AnyString("name", verifrt.Choice("ns", b+1))
	for i := 0; i < len(p); i++ {
		verifrt.Assume(p[i] < 128)
	}
	for i := 0; i < len(s); i++ {
		verifrt.Assume(s[i] < 128)
	}
	verifrt.Assert(Match(p, s) == zzMatch(p, s), "a name matches a pattern exactly when '*' stands for any run and '?' for one character")
	verifrt.Reach("end")
}

// A simple match accepts everything a strict match does.
//
//gosym:harness C28 quick=30s thorough=300s
func VerifC28Simple() {
	b := verifrt.Bound("pattern and name characters", 3, 3)
	p := verifrt.AnyString("pattern", verifrt.Choice("np", b+1))
	s := verifrt.AnyString("name", verifrt.Choice("ns", b+1))
	for i := 0; i < len(p); i++ {
		verifrt.Assume(p[i] < 128)
	}
	for i := 0; i < len(s); i++ {
		verifrt.Assume(s[i] < 128)
	}
	if Match(p, s) {
		verifrt.Assert(MatchSimple(p, s), "a simple match accepts whatever a strict match accepts")
		verifrt.Reach("match")
	}
	if MatchSimple(p, s) && !Match(p, s) {
		q := false
		for i := 0; i < len(p); i++ {
			q = verifrt.Or(q, p[i] == '?')
		}
		verifrt.Assert(q, "only a '?' makes a simple match more permissive")
		verifrt.Reach("simple only")
	}
}
