// Package jsonm stands in for JSON in the symbolic run: an encoded value is a number that names a copy
// of it. Native replays use the real encoding.
package jsonm

import (
	"common/verifrt"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
)

var saved []any

const magic = "\"jsonm:"

var errSyntax = errors.New("invalid character")

// Lookup returns the value behind bytes.
func Lookup(b []byte) (any, bool) {
	s := strings.TrimSpace(string(b))
	if !strings.HasPrefix(s, magic) || !strings.HasSuffix(s, ";\"") {
		return nil, false
	}
	i, err := strconv.Atoi(s[len(magic) : len(s)-2])
	if err != nil || i < 0 || i >= len(saved) {
		return nil, false
	}
	return saved[i], true
}

// Text returns the fields of an encoded flat value as text, in both runs.
func Text(b []byte) map[string]string {
	r := map[string]string{}
	m := map[string]any{}
	if verifrt.Symbolic() {
		v, ok := Lookup(b)
		if !ok {
			return nil
		}
		if x, ok := v.(map[string]interface{}); ok {
			m = x
		} else {
			toMap(v, m)
		}
	} else if json.Unmarshal(b, &m) != nil {
		return nil
	}
	for k, v := range m {
		if f, ok := v.(float64); ok {
			v = int64(f)
		}
		r[k] = fmt.Sprint(v)
	}
	return r
}

func name(f verifrt.Field) string {
	t, _ := reflect.StructTag(f.Tag).Lookup("json")
	n, _, _ := strings.Cut(t, ",")
	if n == "" {
		n = f.Name
	}
	return n
}

func toMap(v any, m map[string]any) {
	for _, f := range verifrt.Fields(v) {
		n := name(f)
		if n == "-" || f.Ptr == nil {
			continue
		}
		switch f.Kind {
		case "struct":
			if f.Emb {
				toMap(f.Ptr, m)
			}
		case "string":
			m[n] = verifrt.GetString(f.Ptr)
		case "int", "uint":
			m[n] = verifrt.GetInt(f.Ptr)
		case "bool":
			if p, ok := f.Ptr.(*bool); ok {
				m[n] = *p
			}
		}
	}
}

//gosym:model encoding/json.Marshal
func zzMarshal(v any) ([]byte, error) {
	saved = append(saved, verifrt.Clone(v))
	return []byte(magic + strconv.Itoa(len(saved)-1) + ";\""), nil
}

// between copies the fields of a flat struct to one of another type, by their names in JSON.
func between(src, dst any) bool {
	from, to := verifrt.Fields(src), verifrt.Fields(dst)
	if len(from) == 0 || len(to) == 0 {
		return false
	}
	for _, f := range from {
		for _, t := range to {
			if name(f) != name(t) || name(f) == "-" {
				continue
			}
			switch {
			case f.Kind == "string" && t.Kind == "string":
				verifrt.SetString(t.Ptr, verifrt.GetString(f.Ptr))
			case (f.Kind == "int" || f.Kind == "uint") && (t.Kind == "int" || t.Kind == "uint"):
				verifrt.SetInt(t.Ptr, verifrt.GetInt(f.Ptr))
			case f.Kind == "bool" && t.Kind == "bool":
				verifrt.SetBool(t.Ptr, *f.Ptr.(*bool))
			case f.Kind == "slice" && t.Kind == "slice":
				*t.Ptr.(*[]string) = append([]string(nil), *f.Ptr.(*[]string)...)
			default:
				return false
			}
		}
	}
	return true
}

func into(src, dst any) error {
	if verifrt.Copy(dst, verifrt.Clone(src)) {
		return nil
	}
	if m, ok := dst.(*map[string]interface{}); ok {
		if x, ok := src.(map[string]interface{}); ok {
			*m = x
		} else {
			*m = map[string]interface{}{}
			toMap(src, *m)
		}
		return nil
	}
	if between(src, dst) {
		return nil
	}
	panic("verifrt: JSON of " + verifrt.TypeName(src) + " into " + verifrt.TypeName(dst))
}

//gosym:model encoding/json.Unmarshal
func zzUnmarshal(b []byte, v any) error {
	x, ok := Lookup(b)
	if !ok {
		return errSyntax
	}
	return into(x, v)
}

var decs = map[*json.Decoder]io.Reader{}

//gosym:model encoding/json.NewDecoder
func zzNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	decs[d] = r
	return d
}

//gosym:model (*encoding/json.Decoder).Decode
func zzDecode(d *json.Decoder, v any) error {
	b, err := io.ReadAll(decs[d])
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	return zzUnmarshal(b, v)
}
