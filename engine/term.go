package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions (width 0 = Bool).

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpULt
	OpULe
	OpSLt
	OpSLe
	OpZExt
	OpSExt
	OpTrunc
	OpGF // linear map over GF(2) of a byte, whose columns are the bytes of c
	OpUF // uninterpreted function application over args (name), width w
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul",
	OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpULt: "bvult", OpULe: "bvule", OpSLt: "bvslt", OpSLe: "bvsle"}

type Term struct {
	id   int
	op   Op
	w    uint8
	n    uint8
	c    uint64
	name string
	a    [3]*Term
	lo   int64 // signed interval (as value of width w, sign-extended); valid for w>0
	hi   int64

	evGen            uint32
	evVal            uint64
	emGen            uint32
	emS, emU, emGenI uint32
	ii               *intInfo
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	name       string
	a0, a1, a2 int
}

type TC struct {
	tab   map[tkey]*Term
	next  int
	gen   uint32
	tTrue *Term
	tFals *Term
}

func NewTC() *TC {
	tc := &TC{tab: map[tkey]*Term{}}
	tc.tTrue = tc.mk(OpConst, 0, 1, "")
	tc.tFals = tc.mk(OpConst, 0, 0, "")
	return tc
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func smin(w uint8) int64 { return -1 << (w - 1) }
func smax(w uint8) int64 { return int64(1)<<(w-1) - 1 }

func (tc *TC) mk(op Op, w uint8, c uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, w: w, c: c, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 0 {
		k.a0 = args[0].id
	}
	if len(args) > 1 {
		k.a1 = args[1].id
	}
	if len(args) > 2 {
		k.a2 = args[2].id
	}
	if t, ok := tc.tab[k]; ok {
		return t
	}
	t := &Term{id: tc.next, op: op, w: w, c: c, name: name, n: uint8(len(args))}
	copy(t.a[:], args)
	tc.next++
	tc.tab[k] = t
	if w > 0 {
		t.lo, t.hi = tc.interval(t)
	}
	return t
}

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (c > a) == (b > 0)
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
	if hi != 0 || lo > 1<<62 {
		return 0, false
	}
	return a * b, true
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func (tc *TC) interval(t *Term) (int64, int64) {
	w := t.w
	mn, mx := smin(w), smax(w)
	fit := func(l, h int64) (int64, int64) {
		if l < mn || h > mx {
			return mn, mx
		}
		return l, h
	}
	switch t.op {
	case OpConst:
		v := sext(t.c, w)
		return v, v
	case OpVar:
		return mn, mx
	case OpIte:
		a, b := t.a[1], t.a[2]
		return min(a.lo, b.lo), max(a.hi, b.hi)
	case OpAdd:
		l, ok1 := addOv(t.a[0].lo, t.a[1].lo)
		h, ok2 := addOv(t.a[0].hi, t.a[1].hi)
		if ok1 && ok2 {
			return fit(l, h)
		}
	case OpSub:
		if t.a[1].lo != smin(64) && t.a[1].hi != smin(64) {
			l, ok1 := addOv(t.a[0].lo, -t.a[1].hi)
			h, ok2 := addOv(t.a[0].hi, -t.a[1].lo)
			if ok1 && ok2 {
				return fit(l, h)
			}
		}
	case OpMul:
		var l, h int64
		for i, p := range [][2]int64{{t.a[0].lo, t.a[1].lo}, {t.a[0].lo, t.a[1].hi}, {t.a[0].hi, t.a[1].lo}, {t.a[0].hi, t.a[1].hi}} {
			if p[0] == smin(64) || p[1] == smin(64) {
				return mn, mx
			}
			v, ok := mulOv(p[0], p[1])
			if !ok {
				return mn, mx
			}
			if i == 0 {
				l, h = v, v
			}
			l, h = min(l, v), max(h, v)
		}
		return fit(l, h)
	case OpZExt:
		x := t.a[0]
		if x.w == 0 {
			return 0, 1
		}
		if x.lo >= 0 {
			return x.lo, x.hi
		}
		if x.w < 64 {
			return 0, int64(mask(x.w))
		}
	case OpSExt:
		return t.a[0].lo, t.a[0].hi
	case OpTrunc:
		if t.a[0].lo >= mn && t.a[0].hi <= mx {
			return t.a[0].lo, t.a[0].hi
		}
	case OpBAnd:
		for i := 0; i < 2; i++ {
			if x := t.a[i]; x.lo >= 0 {
				h := x.hi
				if o := t.a[1-i]; o.lo >= 0 {
					h = min(h, o.hi)
				}
				return 0, h
			}
		}
	case OpBOr, OpBXor:
		if t.a[0].lo >= 0 && t.a[1].lo >= 0 {
			m := uint64(t.a[0].hi) | uint64(t.a[1].hi)
			n := bits.Len64(m)
			return 0, int64(1<<uint(n) - 1)
		}
	case OpURem, OpSRem:
		if t.a[1].op == OpConst && t.a[0].lo >= 0 && t.a[1].lo > 0 {
			return 0, min(t.a[0].hi, t.a[1].hi-1)
		}
		if t.a[0].lo >= 0 && t.a[1].lo > 0 {
			return 0, min(t.a[0].hi, t.a[1].hi-1)
		}
	case OpUDiv, OpSDiv:
		if t.a[0].lo >= 0 && t.a[1].lo > 0 {
			return t.a[0].lo / t.a[1].hi, t.a[0].hi / t.a[1].lo
		}
	case OpLShr:
		if t.a[0].lo >= 0 {
			if t.a[1].op == OpConst && t.a[1].c < 64 {
				return t.a[0].lo >> t.a[1].c, t.a[0].hi >> t.a[1].c
			}
			return 0, t.a[0].hi
		}
		if t.a[1].op == OpConst && t.a[1].c > 0 && t.a[1].c < uint64(w) {
			return 0, int64(mask(w) >> t.a[1].c)
		}
	case OpAShr:
		if t.a[1].op == OpConst && t.a[1].c < 64 {
			return t.a[0].lo >> t.a[1].c, t.a[0].hi >> t.a[1].c
		}
	case OpShl:
		if t.a[1].op == OpConst && t.a[1].c < 62 {
			l, ok1 := mulOv(t.a[0].lo, 1<<t.a[1].c)
			h, ok2 := mulOv(t.a[0].hi, 1<<t.a[1].c)
			if t.a[0].lo > smin(64) && ok1 && ok2 {
				return fit(l, h)
			}
		}
	}
	return mn, mx
}

func (tc *TC) Const(v uint64, w uint8) *Term { return tc.mk(OpConst, w, v&maskb(w), "") }
func maskb(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}
func (tc *TC) Bool(b bool) *Term {
	if b {
		return tc.tTrue
	}
	return tc.tFals
}

// Var with declared signed range (w>0).
func (tc *TC) Var(name string, w uint8, lo, hi int64, ranged bool) *Term {
	if w == 0 {
		return tc.mk(OpVar, 0, 0, name)
	}
	if !ranged {
		return tc.mk(OpVar, w, 0, name)
	}
	nm := fmt.Sprintf("%s[%d,%d]", name, lo, hi)
	t := tc.mk(OpVar, w, 0, nm)
	t.lo, t.hi = lo, hi
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (tc *TC) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tc.Bool(a.c == 0)
	case OpNot:
		return a.a[0]
	}
	return tc.mk(OpNot, 0, 0, "", a)
}

func (tc *TC) And(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 1 {
			return b
		}
		return a
	}
	if b.isConst() {
		if b.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.tFals
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OpAnd, 0, 0, "", a, b)
}

func (tc *TC) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.c == 0 {
			return b
		}
		return a
	}
	if b.isConst() {
		if b.c == 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if tc.Not(a) == b {
		return tc.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tc.mk(OpOr, 0, 0, "", a, b)
}

func (tc *TC) Eq(a, b *Term) *Term {
	if a == b {
		return tc.tTrue
	}
	if a.isConst() && b.isConst() {
		return tc.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.c == 1 {
				return a
			}
			return tc.Not(a)
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return tc.tFals
		}
		if a.lo == a.hi && b.lo == b.hi && a.lo == b.lo {
			return tc.tTrue
		}
		if b.isConst() {
			switch a.op {
			case OpZExt:
				if a.a[0].w > 0 {
					if b.c > mask(a.a[0].w) {
						return tc.tFals
					}
					return tc.Eq(a.a[0], tc.Const(b.c, a.a[0].w))
				}
				if b.c == 1 {
					return a.a[0]
				}
				return tc.Not(a.a[0])
			case OpSExt:
				if uint64(sext(b.c, a.a[0].w))&mask(a.w) != b.c {
					return tc.tFals
				}
				return tc.Eq(a.a[0], tc.Const(b.c, a.a[0].w))
			case OpIte:
				if a.a[1].isConst() || a.a[2].isConst() {
					return tc.Ite(a.a[0], tc.Eq(a.a[1], b), tc.Eq(a.a[2], b))
				}
			case OpAdd:
				if a.a[1].isConst() {
					return tc.Eq(a.a[0], tc.Const(b.c-a.a[1].c, a.w))
				}
			}
		}
		if a.op == OpZExt && b.op == OpZExt && a.a[0].w == b.a[0].w {
			return tc.Eq(a.a[0], b.a[0])
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return tc.mk(OpEq, 0, 0, "", a, b)
}

func (tc *TC) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() {
			if a.c == 1 {
				return tc.Or(c, b)
			}
			return tc.And(tc.Not(c), b)
		}
		if b.isConst() {
			if b.c == 1 {
				return tc.Or(tc.Not(c), a)
			}
			return tc.And(c, a)
		}
	}
	if c.op == OpNot {
		return tc.Ite(c.a[0], b, a)
	}
	return tc.mk(OpIte, a.w, 0, "", c, a, b)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OpSRem:
		a, b := sext(x, w), sext(y, w)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAShr:
		s := y
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return uint64(sext(x, w)>>s) & m
	}
	panic("evalBin")
}

func (tc *TC) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %v %d %d", opNames[op], a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return tc.Const(evalBin(op, w, a.c, b.c), w)
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return tc.Bin(OpAdd, a.a[0], tc.Const(a.a[1].c+b.c, w))
			}
		}
	case OpSub:
		if a == b {
			return tc.Const(0, w)
		}
		if b.isConst() {
			return tc.Bin(OpAdd, a, tc.Const(-b.c, w))
		}
		// (x + c) - x
		if a.op == OpAdd && a.a[1].isConst() && a.a[0] == b {
			return a.a[1]
		}
		if a.op == OpAdd && a.a[0] == b {
			return a.a[1]
		}
		if a.op == OpAdd && a.a[1] == b {
			return a.a[0]
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch {
			case b.c == 0:
				return b
			case b.c == 1:
				return a
			case bits.OnesCount64(b.c) == 1:
				return tc.Bin(OpShl, a, tc.Const(uint64(bits.TrailingZeros64(b.c)), w))
			}
		}
	case OpUDiv, OpSDiv:
		if b.isConst() && b.c == 1 {
			return a
		}
		if b.isConst() && bits.OnesCount64(b.c) == 1 && (op == OpUDiv || (a.lo >= 0 && sext(b.c, w) > 0)) {
			return tc.Bin(OpLShr, a, tc.Const(uint64(bits.TrailingZeros64(b.c)), w))
		}
		if op == OpSDiv && a.lo >= 0 && b.lo > 0 {
			op = OpUDiv
		}
	case OpURem, OpSRem:
		if b.isConst() && bits.OnesCount64(b.c) == 1 && (op == OpURem || (a.lo >= 0 && sext(b.c, w) > 0)) {
			return tc.Bin(OpBAnd, a, tc.Const(b.c-1, w))
		}
		if a.lo >= 0 && b.lo > 0 && a.hi < b.lo {
			return a
		}
		if op == OpSRem && a.lo >= 0 && b.lo > 0 {
			op = OpURem
		}
	case OpBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(w) {
				return a
			}
			if a.lo >= 0 && bits.OnesCount64(b.c+1) == 1 && b.lo >= 0 && a.hi <= b.lo {
				return a
			}
		}
		if a == b {
			return a
		}
	case OpBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OpBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a == b {
			return tc.Const(0, w)
		}
		if w == 8 && (gfSum(a) || gfSum(b)) {
			return tc.gfXor(a, b)
		}
	case OpShl, OpLShr:
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if b.c >= uint64(w) {
				return tc.Const(0, w)
			}
		}
	case OpAShr:
		if b.isConst() && b.c == 0 {
			return a
		}
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	t := tc.mk(op, w, 0, "", a, b)
	if t.lo == t.hi {
		return tc.Const(uint64(t.lo), w)
	}
	return t
}

func (tc *TC) Cmp(op Op, a, b *Term) *Term {
	if a == b {
		return tc.Bool(op == OpULe || op == OpSLe)
	}
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OpULt:
			return tc.Bool(a.c < b.c)
		case OpULe:
			return tc.Bool(a.c <= b.c)
		case OpSLt:
			return tc.Bool(sext(a.c, w) < sext(b.c, w))
		case OpSLe:
			return tc.Bool(sext(a.c, w) <= sext(b.c, w))
		}
	}
	sgn := op == OpSLt || op == OpSLe
	if sgn || (a.lo >= 0 && b.lo >= 0) || (a.hi < 0 && b.hi < 0) {
		switch op {
		case OpULt, OpSLt:
			if a.hi < b.lo {
				return tc.tTrue
			}
			if a.lo >= b.hi {
				return tc.tFals
			}
		default:
			if a.hi <= b.lo {
				return tc.tTrue
			}
			if a.lo > b.hi {
				return tc.tFals
			}
		}
	} else {
		// unsigned with possibly negative ranges: nonneg < negative
		if a.lo >= 0 && b.hi < 0 {
			return tc.tTrue
		}
		if a.hi < 0 && b.lo >= 0 {
			return tc.tFals
		}
	}
	if a.op == OpZExt && b.isConst() && a.a[0].w > 0 && a.a[0].w < w && b.c <= mask(a.a[0].w) {
		uop := op
		if sgn {
			uop = OpULt
			if op == OpSLe {
				uop = OpULe
			}
		}
		if !sgn || sext(b.c, w) >= 0 {
			return tc.Cmp(uop, a.a[0], tc.Const(b.c, a.a[0].w))
		}
	}
	if b.op == OpZExt && a.isConst() && b.a[0].w > 0 && b.a[0].w < w && a.c <= mask(b.a[0].w) {
		uop := op
		if sgn {
			uop = OpULt
			if op == OpSLe {
				uop = OpULe
			}
		}
		if !sgn || sext(a.c, w) >= 0 {
			return tc.Cmp(uop, tc.Const(a.c, b.a[0].w), b.a[0])
		}
	}
	return tc.mk(op, 0, 0, "", a, b)
}

func (tc *TC) BNot(a *Term) *Term {
	if a.isConst() {
		return tc.Const(^a.c, a.w)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return tc.mk(OpBNot, a.w, 0, "", a)
}

func (tc *TC) Neg(a *Term) *Term { return tc.Bin(OpSub, tc.Const(0, a.w), a) }

func (tc *TC) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(a.c, w)
	}
	if a.op == OpZExt {
		return tc.ZExt(a.a[0], w)
	}
	return tc.mk(OpZExt, w, 0, "", a)
}

func (tc *TC) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(uint64(sext(a.c, a.w)), w)
	}
	if a.lo >= 0 {
		return tc.ZExt(a, w)
	}
	return tc.mk(OpSExt, w, 0, "", a)
}

func (tc *TC) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return tc.Const(a.c, w)
	}
	switch a.op {
	case OpZExt, OpSExt:
		if a.a[0].w == w {
			return a.a[0]
		}
		if a.a[0].w > w {
			return tc.Trunc(a.a[0], w)
		}
		if a.a[0].w < w {
			if a.op == OpZExt {
				return tc.ZExt(a.a[0], w)
			}
			return tc.SExt(a.a[0], w)
		}
	case OpTrunc:
		return tc.Trunc(a.a[0], w)
	case OpBAnd, OpBOr, OpBXor, OpAdd:
		if a.a[1].isConst() && a.op != OpAdd {
			return tc.Bin(a.op, tc.Trunc(a.a[0], w), tc.Trunc(a.a[1], w))
		}
	case OpIte:
		if a.a[1].isConst() && a.a[2].isConst() {
			return tc.Ite(a.a[0], tc.Trunc(a.a[1], w), tc.Trunc(a.a[2], w))
		}
	}
	return tc.mk(OpTrunc, w, 0, "", a)
}

// ---- linear maps over GF(2) ----

const gfOne = 0x8040201008040201

func gfApply(m, x uint64) uint64 {
	var r uint64
	for j := 0; j < 8; j++ {
		if x>>j&1 == 1 {
			r ^= m >> (8 * j) & 255
		}
	}
	return r
}

// gfTable returns the map a table stands for.
func gfTable(tab []uint64) (uint64, bool) {
	if len(tab) != 256 || tab[0] != 0 {
		return 0, false
	}
	var m uint64
	for j := 0; j < 8; j++ {
		m |= tab[1<<j] << (8 * j)
	}
	for i, v := range tab {
		if gfApply(m, uint64(i)) != v {
			return 0, false
		}
	}
	return m, true
}

// gfSum tells if t has a part which is a linear map.
func gfSum(t *Term) bool {
	return t.w == 8 && (t.op == OpGF || t.op == OpBXor && (gfSum(t.a[0]) || gfSum(t.a[1])))
}

func gfCollect(t *Term, m uint64, parts map[*Term]uint64, c *uint64) {
	switch {
	case t.op == OpConst:
		*c ^= gfApply(m, t.c)
	case t.op == OpBXor:
		gfCollect(t.a[0], m, parts, c)
		gfCollect(t.a[1], m, parts, c)
	case t.op == OpGF:
		var mm uint64
		for j := 0; j < 8; j++ {
			mm |= gfApply(m, t.c>>(8*j)&255) << (8 * j)
		}
		gfCollect(t.a[0], mm, parts, c)
	default:
		parts[t] ^= m
	}
}

func (tc *TC) gfBuild(parts map[*Term]uint64, c uint64) *Term {
	var ts []*Term
	for t, m := range parts {
		if m != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var r *Term
	for _, t := range ts {
		if m := parts[t]; m != gfOne {
			t = tc.mk(OpGF, 8, m, "", t)
		}
		if r == nil {
			r = t
		} else {
			r = tc.mk(OpBXor, 8, 0, "", r, t)
		}
	}
	if r == nil {
		return tc.Const(c, 8)
	}
	if c != 0 {
		r = tc.mk(OpBXor, 8, 0, "", r, tc.Const(c, 8))
	}
	return r
}

// GF applies the linear map m to a byte.
func (tc *TC) GF(m uint64, x *Term) *Term {
	parts, c := map[*Term]uint64{}, uint64(0)
	gfCollect(x, m, parts, &c)
	return tc.gfBuild(parts, c)
}

func (tc *TC) gfXor(a, b *Term) *Term {
	parts, c := map[*Term]uint64{}, uint64(0)
	gfCollect(a, gfOne, parts, &c)
	gfCollect(b, gfOne, parts, &c)
	return tc.gfBuild(parts, c)
}

func (tc *TC) UF(name string, w uint8, args ...*Term) *Term {
	return tc.mk(OpUF, w, 0, name, args...)
}

// ---- evaluation under a model ----

type Model map[string]uint64

func (tc *TC) Eval(t *Term, m Model) uint64 {
	tc.gen++
	return tc.ev(t, m)
}

func (tc *TC) ev(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.c
	}
	if t.evGen == tc.gen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpVar:
		v, ok := m[t.name]
		if !ok && t.w > 0 && (t.lo > 0 || t.hi < 0) {
			v = uint64(t.lo) & mask(t.w)
		}
		r = v
	case OpNot:
		r = 1 - tc.ev(t.a[0], m)
	case OpAnd:
		r = tc.ev(t.a[0], m) & tc.ev(t.a[1], m)
	case OpOr:
		r = tc.ev(t.a[0], m) | tc.ev(t.a[1], m)
	case OpEq:
		if tc.ev(t.a[0], m) == tc.ev(t.a[1], m) {
			r = 1
		}
	case OpIte:
		if tc.ev(t.a[0], m) == 1 {
			r = tc.ev(t.a[1], m)
		} else {
			r = tc.ev(t.a[2], m)
		}
	case OpULt, OpULe, OpSLt, OpSLe:
		x, y := tc.ev(t.a[0], m), tc.ev(t.a[1], m)
		w := t.a[0].w
		var b bool
		switch t.op {
		case OpULt:
			b = x < y
		case OpULe:
			b = x <= y
		case OpSLt:
			b = sext(x, w) < sext(y, w)
		case OpSLe:
			b = sext(x, w) <= sext(y, w)
		}
		if b {
			r = 1
		}
	case OpZExt:
		r = tc.ev(t.a[0], m)
	case OpSExt:
		r = uint64(sext(tc.ev(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OpTrunc:
		r = tc.ev(t.a[0], m) & mask(t.w)
	case OpBNot:
		r = ^tc.ev(t.a[0], m) & mask(t.w)
	case OpGF:
		r = gfApply(t.c, tc.ev(t.a[0], m))
	case OpUF:
		panic("eval UF")
	default:
		r = evalBin(t.op, t.w, tc.ev(t.a[0], m), tc.ev(t.a[1], m))
	}
	t.evGen = tc.gen
	t.evVal = r
	return r
}

// ---- SMT-LIB printing ----

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.c, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) expr() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch t.op {
	case OpZExt:
		if t.a[0].w == 0 {
			return "(ite " + t.a[0].ref() + " (_ bv1 " + strconv.Itoa(int(t.w)) + ") (_ bv0 " + strconv.Itoa(int(t.w)) + "))"
		}
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.w-t.a[0].w)
	case OpSExt:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.w-t.a[0].w)
	case OpTrunc:
		fmt.Fprintf(&sb, "(_ extract %d 0)", t.w-1)
	case OpGF:
		sb.WriteString("concat")
		for i := 7; i >= 0; i-- {
			k := 0
			e := ""
			for j := 0; j < 8; j++ {
				if t.c>>(8*j)>>i&1 == 1 {
					e += fmt.Sprintf(" ((_ extract %d %d) %s)", j, j, t.a[0].ref())
					k++
				}
			}
			switch k {
			case 0:
				e = " (_ bv0 1)"
			case 1:
			default:
				e = " (bvxor" + e + ")"
			}
			sb.WriteString(e)
		}
		return sb.String() + ")"
	case OpUF:
		sb.WriteString("|" + t.name + "|")
	default:
		sb.WriteString(opNames[t.op])
	}
	for i := 0; i < int(t.n); i++ {
		sb.WriteByte(' ')
		sb.WriteString(t.a[i].ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

// pretty prints a term (bounded depth) for diagnostics.
func (t *Term) pretty(d int) string {
	if t.op == OpConst {
		if t.w == 0 {
			return fmt.Sprint(t.c == 1)
		}
		return fmt.Sprint(sext(t.c, t.w))
	}
	if t.op == OpVar {
		return t.name
	}
	if d == 0 {
		return "…"
	}
	s := "(" + opNames[t.op]
	if t.op >= OpZExt {
		s = "(" + map[Op]string{OpZExt: "zext", OpSExt: "sext", OpTrunc: "trunc", OpUF: t.name}[t.op]
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].pretty(d-1)
	}
	return s + ")"
}
