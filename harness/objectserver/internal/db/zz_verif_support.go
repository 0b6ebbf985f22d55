package db

import (
	"common/verifrt"
	"common/verifrt/badgerm"
)

// VerifPathCache opens the path cache of a directory, again or for the first time.
func VerifPathCache(dir string) *PathCache {
	if verifrt.Symbolic() {
		return &PathCache{db: badgerm.Dir(dir)}
	}
	pc, err := NewPathCache(dir)
	verifrt.Assert(err == nil, "the path cache opens")
	return pc
}
