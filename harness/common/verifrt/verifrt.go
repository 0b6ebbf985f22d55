// Package verifrt is the harness library. The functions below are intercepted by the symbolic
// engine; the bodies here are the native meaning used when a solver assignment is replayed
// against the compiled code.
package verifrt

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

type nondet struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    int64  `json:"v"`
}

type input struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Nondets []nondet `json:"nondets"`
}

type output struct {
	Result string
	Msg    string
	Reach  []string
	Obs    []string
}

var (
	mu   sync.Mutex
	in   input
	vals = map[string]int64{}
	cnt  = map[string]int{}
	out  output
)

func get(name string, def int64) int64 {
	mu.Lock()
	defer mu.Unlock()
	k := name + "#" + strconv.Itoa(cnt[name])
	cnt[name]++
	if v, ok := vals[k]; ok {
		return v
	}
	return def
}

// Main runs one harness natively on the assignment in $VERIF_REPLAY.
func Main(hs map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	for _, n := range in.Nondets {
		vals[n.Name] = n.V
	}
	f := hs[in.Harness]
	if f == nil {
		fmt.Println("no harness", in.Harness)
		os.Exit(3)
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				finish("panic", fmt.Sprint(r)+"\n"+string(debug.Stack()))
			}
		}()
		f()
		finish("ok", "")
	}()
	<-done
	select {}
}

func finish(res, msg string) {
	mu.Lock()
	out.Result, out.Msg = res, msg
	b, _ := json.Marshal(out)
	os.WriteFile(os.Getenv("VERIF_OUT"), b, 0o644)
	os.Exit(0)
}

func Int(name string, lo, hi int) int { return int(get(name, int64(lo))) }
func AnyInt(name string) int          { return int(get(name, 0)) }
func AnyInt64(name string) int64      { return get(name, 0) }
func AnyUint64(name string) uint64    { return uint64(get(name, 0)) }
func AnyUint32(name string) uint32    { return uint32(get(name, 0)) }
func AnyInt32(name string) int32      { return int32(get(name, 0)) }
func AnyByte(name string) byte        { return byte(get(name, 0)) }
func AnyBool(name string) bool        { return get(name, 0) != 0 }
func Choice(name string, n int) int   { return int(get(name, 0)) }
func Conc(v int) int                  { return v }
func MaxFork(n int)                   {}
func MaxSteps(n int)                  {}
func Terminates(n int)                {}
func Symbolic() bool                  { return false }
func Finding(id string, cond bool)    {}
func Schedules(preemptions int)       {}
func EndSchedules()                   {}
func Races()                          {} // report unsynchronised accesses from here on
func MapOrder(on bool)                {}
func And(a, b bool) bool              { return a && b }
func Or(a, b bool) bool               { return a || b }
func Not(a bool) bool                 { return !a }
func Implies(a, b bool) bool          { return !a || b }
func EqBytes(a, b []byte) bool        { return string(a) == string(b) }
func EqString(a, b string) bool       { return a == b }
func Thorough() bool                  { return in.Tier == "thorough" }
func Now() int64                      { return time.Now().UnixNano() }
func Advance(ns int64)                { time.Sleep(time.Duration(ns)) }
func Note(s string)                   {}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func AnyBytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(name, 0))
	}
	return b
}

func AnyString(name string, n int) string { return string(AnyBytes(name, n)) }

// Bound declares a bound with its quick and thorough value.
func Bound(name string, quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

func Assume(c bool) {
	if !c {
		finish("assume", "")
	}
}

func Assert(c bool, msg string) {
	if !c {
		_, f, l, _ := runtime.Caller(1)
		finish("assert", fmt.Sprintf("%s (%s:%d)", msg, f, l))
	}
}

func Reach(label string) {
	mu.Lock()
	out.Reach = append(out.Reach, label)
	mu.Unlock()
}

func obs(s string) {
	mu.Lock()
	out.Obs = append(out.Obs, s)
	mu.Unlock()
}

func ObserveInt(label string, v int)   { obs(label + "=" + strconv.Itoa(v)) }
func ObserveStr(label, v string)       { obs(label + "=" + strconv.Quote(v)) }
func ObserveBool(label string, v bool) { obs(label + "=" + strconv.FormatBool(v)) }

// Drain lets the other goroutines run until they block or finish.
func Drain() {
	for i := 0; i < 20; i++ {
		runtime.Gosched()
		time.Sleep(5 * time.Millisecond)
	}
}

// IdealHash stands for a collision-free digest.
func IdealHash(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

var dirs int

// TempDir returns a fresh directory private to this run.
func TempDir() string {
	dirs++
	d := os.Getenv("VERIF_SCRATCH") + "/d" + strconv.Itoa(dirs)
	os.MkdirAll(d, 0o755)
	return d
}

// Field describes one field of a struct and points to it.
type Field struct {
	Name string
	Tag  string
	Kind string // string, bool, int, uint, float, struct, slice, ptr or other
	Ptr  any
	Emb  bool
}

// Fields lists the fields of the struct that obj points to; exported and embedded ones only.
func Fields(obj any) []Field {
	v := reflect.ValueOf(obj)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	v = v.Elem()
	var fs []Field
	for i := 0; i < v.NumField(); i++ {
		t := v.Type().Field(i)
		if !t.IsExported() && !t.Anonymous {
			continue
		}
		f := Field{Name: t.Name, Tag: string(t.Tag), Kind: "other", Emb: t.Anonymous}
		switch t.Type.Kind() {
		case reflect.String:
			f.Kind = "string"
		case reflect.Bool:
			f.Kind = "bool"
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			f.Kind = "int"
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			f.Kind = "uint"
		case reflect.Float32, reflect.Float64:
			f.Kind = "float"
		case reflect.Struct:
			f.Kind = "struct"
		case reflect.Slice:
			f.Kind = "slice"
		case reflect.Pointer:
			f.Kind = "ptr"
		}
		if t.IsExported() {
			f.Ptr = v.Field(i).Addr().Interface()
		}
		fs = append(fs, f)
	}
	return fs
}

// PrivInt reads an integer field, exported or not, of the struct that obj points to.
func PrivInt(obj any, name string) int64 { return reflect.ValueOf(obj).Elem().FieldByName(name).Int() }

// SetInt, SetString and SetBool store through a pointer of any named or unnamed type of that kind.
func SetInt(ptr any, x int64) {
	v := reflect.ValueOf(ptr).Elem()
	if v.CanInt() {
		v.SetInt(x)
	} else {
		v.SetUint(uint64(x))
	}
}
func SetString(ptr any, s string) { reflect.ValueOf(ptr).Elem().SetString(s) }
func SetBool(ptr any, b bool)     { reflect.ValueOf(ptr).Elem().SetBool(b) }

// GetInt and GetString read through such a pointer.
func GetInt(ptr any) int64 {
	v := reflect.ValueOf(ptr).Elem()
	if v.CanInt() {
		return v.Int()
	}
	return int64(v.Uint())
}
func GetString(ptr any) string { return reflect.ValueOf(ptr).Elem().String() }

// Copy stores *src in *dst (a shallow copy); both must point to the same type.
func Copy(dst, src any) bool {
	d, s := reflect.ValueOf(dst), reflect.ValueOf(src)
	if d.Type() != s.Type() {
		return false
	}
	d.Elem().Set(s.Elem())
	return true
}

// TypeName names the dynamic type of v.
func TypeName(v any) string { return fmt.Sprintf("%T", v) }

// Clone is a deep copy of a value; for the engine's models only.
func Clone(v any) any { panic("verifrt: Clone is for the engine only") }
