package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value: C holds concrete scalar bits when P==nil; P holds *Term for symbolic scalars,
// or the heap object for reference kinds.
type Value struct {
	C uint64
	P any
}

type SymStr struct{ b []Value }
type Agg struct{ f []Value } // struct or array
type SliceV struct{ a []Value }
type Iface struct {
	T types.Type
	V Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type SymPtr struct {
	a   []Value
	idx *Term
}
type strData struct{ s Value }     // unsafe.StringData
type sliceData struct{ a []Value } // unsafe.SliceData
type poison struct{ why string }
type nativeFn struct {
	name string
	fn   func(g *G, args []Value) Value
}
type mapIter struct {
	m    *MapObj
	keys []*mapEnt
	pos  int
}
type strIter struct {
	s   Value
	pos int
}
type mapEnt struct {
	k, v Value
	dead bool
}
type MapObj struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete keys
	live int
	nsym int
	elem types.Type
	key  types.Type
}
type ChanObj struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	nilv   bool
}
type waiter struct {
	g    *G
	val  Value
	ok   bool
	done *bool // shared across select cases
	idx  int
	sel  *int
	out  *Value
	okp  *bool
}

func mkInt(c uint64) Value { return Value{C: c} }
func mkTerm(t *Term) Value {
	if t.isConst() {
		return Value{C: t.c}
	}
	return Value{P: t}
}
func mkBool(b bool) Value {
	if b {
		return Value{C: 1}
	}
	return Value{}
}
func mkStr(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{P: s}
}

func (v Value) sym() *Term {
	t, _ := v.P.(*Term)
	return t
}

// term lifts a scalar to a term of width w (0 for bool).
func (v Value) term(tc *TC, w uint8) *Term {
	if t, ok := v.P.(*Term); ok {
		return t
	}
	if w == 0 {
		return tc.Bool(v.C == 1)
	}
	return tc.Const(v.C, w)
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	bad(v, "strLen")
	return 0
}
func strAt(v Value, i int) Value {
	switch s := v.P.(type) {
	case string:
		return Value{C: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	bad(v, "strAt")
	return Value{}
}
func strConc(v Value) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}
func mkSymStr(b []Value) Value {
	for _, x := range b {
		if x.P != nil {
			return Value{P: &SymStr{b: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.C)
	}
	return mkStr(string(bs))
}
func strBytes(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i] = Value{C: uint64(s[i])}
		}
		return r
	case *SymStr:
		return s.b
	}
	bad(v, "strBytes")
	return nil
}
func strSlice(v Value, lo, hi int) Value {
	switch s := v.P.(type) {
	case nil:
		return v
	case string:
		return mkStr(s[lo:hi])
	case *SymStr:
		return mkSymStr(s.b[lo:hi:hi])
	}
	bad(v, "strSlice")
	return v
}
func strConcat(a, b Value) Value {
	if sa, ok := strConc(a); ok {
		if sb, ok := strConc(b); ok {
			return mkStr(sa + sb)
		}
	}
	x, y := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkSymStr(r)
}

func sliceOf(v Value) []Value {
	switch s := v.P.(type) {
	case nil:
		return nil
	case *SliceV:
		return s.a
	case string, *SymStr: // unsafe-reinterpreted
		return strBytes(v)
	}
	bad(v, "sliceOf")
	return nil
}
func mkSlice(a []Value) Value { return Value{P: &SliceV{a: a}} }
func mkBytes(b []byte) Value {
	a := make([]Value, len(b))
	for i, x := range b {
		a[i] = Value{C: uint64(x)}
	}
	return mkSlice(a)
}
func concBytes(v Value) ([]byte, bool) {
	a := sliceOf(v)
	r := make([]byte, len(a))
	for i, x := range a {
		if x.P != nil {
			return nil, false
		}
		r[i] = byte(x.C)
	}
	return r, true
}

type unsupported struct{ msg string }

func bad(v Value, what string) {
	if p, ok := v.P.(*poison); ok {
		panic(unsupported{"poison(" + p.why + ") used in " + what})
	}
	panic(unsupported{fmt.Sprintf("%s: unexpected value %T", what, v.P)})
}

// copyVal deep-copies aggregates (struct/array values).
func copyVal(v Value) Value {
	if a, ok := v.P.(*Agg); ok {
		n := &Agg{f: make([]Value, len(a.f))}
		for i, x := range a.f {
			if _, ok := x.P.(*Agg); ok {
				x = copyVal(x)
			}
			n.f[i] = x
		}
		return Value{P: n}
	}
	return v
}

// storeTo stores v in place so that existing field pointers stay valid.
func storeTo(addr *Value, v Value) {
	if a, ok := v.P.(*Agg); ok {
		if d, ok := addr.P.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				storeTo(&d.f[i], a.f[i])
			}
			return
		}
		*addr = copyVal(v)
		return
	}
	*addr = v
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return Value{}
	case *types.Struct:
		a := &Agg{f: make([]Value, u.NumFields())}
		for i := range a.f {
			ft := u.Field(i).Type()
			switch ft.Underlying().(type) {
			case *types.Struct, *types.Array:
				a.f[i] = zero(ft)
			}
		}
		return Value{P: a}
	case *types.Array:
		a := &Agg{f: make([]Value, u.Len())}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Array:
			for i := range a.f {
				a.f[i] = zero(u.Elem())
			}
		}
		return Value{P: a}
	case *types.Tuple:
		a := make([]Value, u.Len())
		for i := range a {
			a[i] = zero(u.At(i).Type())
		}
		return Value{P: a}
	}
	panic(unsupported{fmt.Sprintf("zero of %v", t)})
}

type kindInfo struct {
	w      uint8 // 0 = not integer
	signed bool
	k      uint8
}

const (
	kInt uint8 = iota + 1
	kBool
	kString
	kFloat64
	kFloat32
	kOther
)

func kindOf(t types.Type) kindInfo {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kindInfo{k: kOther}
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return kindInfo{64, true, kInt}
	case types.Uint, types.Uint64, types.Uintptr:
		return kindInfo{64, false, kInt}
	case types.Int32, types.UntypedRune:
		return kindInfo{32, true, kInt}
	case types.Uint32:
		return kindInfo{32, false, kInt}
	case types.Int16:
		return kindInfo{16, true, kInt}
	case types.Uint16:
		return kindInfo{16, false, kInt}
	case types.Int8:
		return kindInfo{8, true, kInt}
	case types.Uint8:
		return kindInfo{8, false, kInt}
	case types.Bool, types.UntypedBool:
		return kindInfo{k: kBool}
	case types.String, types.UntypedString:
		return kindInfo{k: kString}
	case types.Float64, types.UntypedFloat:
		return kindInfo{w: 64, k: kFloat64}
	case types.Float32:
		return kindInfo{w: 32, k: kFloat32}
	}
	return kindInfo{k: kOther}
}

func (k kindInfo) width() uint8 {
	if k.k == kBool {
		return 0
	}
	return k.w
}

func f64(v Value) float64 {
	if v.P != nil {
		bad(v, "symbolic float")
	}
	return math.Float64frombits(v.C)
}
func mkF64(f float64) Value { return Value{C: math.Float64bits(f)} }
func f32(v Value) float32 {
	if v.P != nil {
		bad(v, "symbolic float")
	}
	return math.Float32frombits(uint32(v.C))
}
func mkF32(f float32) Value { return Value{C: uint64(math.Float32bits(f))} }

// concKey gives a canonical key for fully concrete map keys.
func concKey(v Value) (string, bool) {
	switch p := v.P.(type) {
	case nil:
		return fmt.Sprintf("c%d", v.C), true
	case string:
		return "s" + p, true
	case *Term, *SymStr:
		return "", false
	case *Iface:
		k, ok := concKey(p.V)
		if p.V.P == nil {
			if b, isb := p.T.Underlying().(*types.Basic); isb && b.Info()&types.IsString != 0 {
				k = "s"
			}
		}
		return "i" + types.TypeString(p.T, nil) + ":" + k, ok
	case *Agg:
		var sb strings.Builder
		sb.WriteString("a{")
		for _, f := range p.f {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	default:
		return fmt.Sprintf("p%p", p), true
	}
}
