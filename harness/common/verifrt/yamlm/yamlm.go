// Package yamlm stands in for YAML in the symbolic run: it writes the texts of all fields that YAML would.
// Native replays use the real encoding.
package yamlm

import (
	"common/verifrt"
	"reflect"
	"strings"

	"gopkg.in/yaml.v3"
)

var _ = yaml.Marshal

func texts(v any, out []byte) []byte {
	for _, f := range verifrt.Fields(v) {
		t, _ := reflect.StructTag(f.Tag).Lookup("yaml")
		if n, _, _ := strings.Cut(t, ","); n == "-" || f.Ptr == nil {
			continue
		}
		switch f.Kind {
		case "struct":
			out = texts(f.Ptr, out)
		case "string":
			out = append(append(out, verifrt.GetString(f.Ptr)...), '\n')
		case "slice":
			if s, ok := f.Ptr.(*[]string); ok {
				for _, x := range *s {
					out = append(append(out, x...), '\n')
				}
			}
		}
	}
	return out
}

//gosym:model gopkg.in/yaml.v3.Marshal
func zzMarshal(v any) ([]byte, error) { return texts(v, nil), nil }
