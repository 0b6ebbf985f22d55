// Package gobm stands in for the gob encoding of common/util in the symbolic run: an encoded value is
// a number that names a copy of it. Native replays use gob.
package gobm

import (
	"common/verifrt"
	"strconv"
	"strings"
)

var saved []any

const magic = "gobm:"

// Valid tells whether bytes are an encoded value.
func lookup(b []byte) (any, bool) {
	s := string(b)
	if !strings.HasPrefix(s, magic) || !strings.HasSuffix(s, ";") {
		return nil, false
	}
	i, err := strconv.Atoi(s[len(magic) : len(s)-1])
	if err != nil || i < 0 || i >= len(saved) {
		return nil, false
	}
	return saved[i], true
}

//gosym:model common/util.GobEncode
func zzEncode(v any) []byte {
	saved = append(saved, verifrt.Clone(v))
	return []byte(magic + strconv.Itoa(len(saved)-1) + ";")
}

//gosym:model common/util.GobDecode
func zzDecode(b []byte, v any) bool {
	x, ok := lookup(b)
	if !ok {
		return false
	}
	if !verifrt.Copy(v, verifrt.Clone(x)) {
		panic("verifrt: gob of " + verifrt.TypeName(x) + " into " + verifrt.TypeName(v))
	}
	return true
}
