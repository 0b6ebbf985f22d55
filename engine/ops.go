package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (g *G) unop(fr *frame, in *ssa.UnOp, c *cinstr) Value {
	x := fr.get(&c.ops[0])
	tc := g.p.w.tc
	switch in.Op {
	case token.MUL:
		return g.load(x, in.Type())
	case token.NOT:
		if t := x.sym(); t != nil {
			return mkTerm(tc.Not(t))
		}
		if x.P != nil {
			bad(x, "!")
		}
		return Value{C: 1 - x.C}
	case token.SUB:
		switch c.ki.k {
		case kInt:
			if t := x.sym(); t != nil {
				return mkTerm(tc.Neg(t))
			}
			return Value{C: -x.C & mask(c.ki.w)}
		case kFloat64:
			return mkF64(-f64(x))
		case kFloat32:
			return mkF32(-f32(x))
		}
	case token.XOR:
		if t := x.sym(); t != nil {
			return mkTerm(tc.BNot(t))
		}
		return Value{C: ^x.C & mask(c.ki.w)}
	case token.ARROW:
		v, ok := g.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Value{P: []Value{v, mkBool(ok)}}
		}
		return v
	}
	panic(unsupported{"unop " + in.String()})
}

func (g *G) binop(op token.Token, xt types.Type, k, ky kindInfo, x, y Value) Value {
	switch op {
	case token.EQL:
		return g.equals(xt, x, y)
	case token.NEQ:
		return g.notV(g.equals(xt, x, y))
	}
	tc := g.p.w.tc
	switch k.k {
	case kString:
		switch op {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return g.strLt(x, y)
		case token.GTR:
			return g.strLt(y, x)
		case token.LEQ:
			return g.notV(g.strLt(y, x))
		case token.GEQ:
			return g.notV(g.strLt(x, y))
		}
	case kFloat64, kFloat32:
		var a, b float64
		if k.k == kFloat64 {
			a, b = f64(x), f64(y)
		} else {
			a, b = float64(f32(x)), float64(f32(y))
		}
		mk := func(f float64) Value {
			if k.k == kFloat64 {
				return mkF64(f)
			}
			return mkF32(float32(f))
		}
		switch op {
		case token.ADD:
			return mk(a + b)
		case token.SUB:
			return mk(a - b)
		case token.MUL:
			return mk(a * b)
		case token.QUO:
			return mk(a / b)
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return g.andV(x, y)
		case token.OR, token.LOR:
			return mkTerm(tc.Or(x.term(tc, 0), y.term(tc, 0)))
		}
	case kInt:
		w := k.w
		if (x.P != nil && x.sym() == nil) || (y.P != nil && y.sym() == nil) {
			bad(x, "binop")
			bad(y, "binop")
		}
		switch op {
		case token.SHL, token.SHR:
			return g.shift(op, k, ky, x, y)
		case token.QUO, token.REM:
			// division by zero check
			if y.P == nil {
				if y.C == 0 {
					g.rtPanic("integer divide by zero")
				}
			} else if g.p.branch(tc.Eq(y.term(tc, w), tc.Const(0, w))) {
				g.rtPanic("integer divide by zero")
			}
		}
		if x.P == nil && y.P == nil {
			return concInt2(op, k, x.C, y.C)
		}
		a, b := x.term(tc, w), y.term(tc, w)
		switch op {
		case token.ADD:
			return mkTerm(tc.Bin(OpAdd, a, b))
		case token.SUB:
			return mkTerm(tc.Bin(OpSub, a, b))
		case token.MUL:
			return mkTerm(tc.Bin(OpMul, a, b))
		case token.QUO:
			if k.signed {
				return mkTerm(tc.Bin(OpSDiv, a, b))
			}
			return mkTerm(tc.Bin(OpUDiv, a, b))
		case token.REM:
			if k.signed {
				return mkTerm(tc.Bin(OpSRem, a, b))
			}
			return mkTerm(tc.Bin(OpURem, a, b))
		case token.AND:
			return mkTerm(tc.Bin(OpBAnd, a, b))
		case token.OR:
			return mkTerm(tc.Bin(OpBOr, a, b))
		case token.XOR:
			return mkTerm(tc.Bin(OpBXor, a, b))
		case token.AND_NOT:
			return mkTerm(tc.Bin(OpBAnd, a, tc.BNot(b)))
		}
		lt, le := OpULt, OpULe
		if k.signed {
			lt, le = OpSLt, OpSLe
		}
		switch op {
		case token.LSS:
			return mkTerm(tc.Cmp(lt, a, b))
		case token.LEQ:
			return mkTerm(tc.Cmp(le, a, b))
		case token.GTR:
			return mkTerm(tc.Cmp(lt, b, a))
		case token.GEQ:
			return mkTerm(tc.Cmp(le, b, a))
		}
	}
	bad(x, "binop "+op.String())
	return Value{}
}

func (g *G) shift(op token.Token, k, ky kindInfo, x, y Value) Value {
	tc := g.p.w.tc
	w := k.w
	if y.P == nil {
		s := y.C
		if ky.signed && sext(y.C, ky.w) < 0 {
			g.rtPanic("negative shift amount")
		}
		if x.P == nil {
			if op == token.SHL {
				return Value{C: evalBin(OpShl, w, x.C, s)}
			}
			if k.signed {
				return Value{C: evalBin(OpAShr, w, x.C, s)}
			}
			return Value{C: evalBin(OpLShr, w, x.C, s)}
		}
		if s > uint64(w) {
			s = uint64(w)
		}
		b := tc.Const(s, w)
		if op == token.SHL {
			return mkTerm(tc.Bin(OpShl, x.term(tc, w), b))
		}
		if k.signed {
			return mkTerm(tc.Bin(OpAShr, x.term(tc, w), b))
		}
		return mkTerm(tc.Bin(OpLShr, x.term(tc, w), b))
	}
	s := y.sym()
	if ky.signed {
		if g.p.branch(tc.Cmp(OpSLt, s, tc.Const(0, ky.w))) {
			g.rtPanic("negative shift amount")
		}
	}
	// saturate the amount at w
	var b *Term
	big := tc.Cmp(OpULe, tc.Const(uint64(w), ky.w), s)
	if ky.w >= w {
		b = tc.Trunc(s, w)
	} else {
		b = tc.ZExt(s, w)
	}
	b = tc.Ite(big, tc.Const(uint64(w), w), b)
	a := x.term(tc, w)
	if op == token.SHL {
		return mkTerm(tc.Bin(OpShl, a, b))
	}
	if k.signed {
		return mkTerm(tc.Bin(OpAShr, a, b))
	}
	return mkTerm(tc.Bin(OpLShr, a, b))
}

func concInt2(op token.Token, k kindInfo, x, y uint64) Value {
	w := k.w
	m := mask(w)
	switch op {
	case token.ADD:
		return Value{C: (x + y) & m}
	case token.SUB:
		return Value{C: (x - y) & m}
	case token.MUL:
		return Value{C: (x * y) & m}
	case token.QUO:
		if k.signed {
			return Value{C: evalBin(OpSDiv, w, x, y)}
		}
		return Value{C: x / y}
	case token.REM:
		if k.signed {
			return Value{C: evalBin(OpSRem, w, x, y)}
		}
		return Value{C: x % y}
	case token.AND:
		return Value{C: x & y}
	case token.OR:
		return Value{C: x | y}
	case token.XOR:
		return Value{C: x ^ y}
	case token.AND_NOT:
		return Value{C: x &^ y}
	}
	if k.signed {
		a, b := sext(x, w), sext(y, w)
		switch op {
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
	}
	switch op {
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	panic(unsupported{"concInt2 " + op.String()})
}

func (g *G) convert(from, to types.Type, kf, kt kindInfo, x Value) Value {
	tc := g.p.w.tc
	if p, ok := x.P.(*poison); ok {
		panic(unsupported{"poison " + p.why})
	}
	switch {
	case kf.k == kInt && kt.k == kInt:
		if t := x.sym(); t != nil {
			if kt.w <= kf.w {
				return mkTerm(tc.Trunc(t, kt.w))
			}
			if kf.signed {
				return mkTerm(tc.SExt(t, kt.w))
			}
			return mkTerm(tc.ZExt(t, kt.w))
		}
		if kf.signed {
			return Value{C: uint64(sext(x.C, kf.w)) & mask(kt.w)}
		}
		return Value{C: x.C & mask(kt.w)}
	case kf.k == kInt && (kt.k == kFloat64 || kt.k == kFloat32):
		var f float64
		i := g.concInt(x, kf, "int to float")
		if kf.signed {
			f = float64(i)
		} else {
			f = float64(uint64(i))
		}
		if kt.k == kFloat32 {
			return mkF32(float32(f))
		}
		return mkF64(f)
	case (kf.k == kFloat64 || kf.k == kFloat32) && kt.k == kInt:
		var f float64
		if kf.k == kFloat64 {
			f = f64(x)
		} else {
			f = float64(f32(x))
		}
		if kt.signed {
			if math.IsNaN(f) || f >= 9.3e18 || f <= -9.3e18 {
				return Value{C: (1 << 63) & mask(kt.w)}
			}
			return Value{C: uint64(int64(f)) & mask(kt.w)}
		}
		return Value{C: uint64(f) & mask(kt.w)}
	case kf.k == kFloat64 && kt.k == kFloat32:
		return mkF32(float32(f64(x)))
	case kf.k == kFloat32 && kt.k == kFloat64:
		return mkF64(float64(f32(x)))
	case kf.k == kt.k && kf.k != kOther:
		return x
	case kt.k == kString:
		if kf.k == kInt {
			r := g.concInt(x, kf, "rune to string")
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			return mkStr(string(rune(r)))
		}
		if s, ok := from.Underlying().(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				return mkSymStr(append([]Value(nil), sliceOf(x)...))
			}
			// []rune
			out := Value{}
			for _, r := range sliceOf(x) {
				if t := r.sym(); t != nil {
					if g.p.branch(tc.Cmp(OpULt, t, tc.Const(0x80, 32))) {
						out = strConcat(out, mkSymStr([]Value{mkTerm(tc.Trunc(t, 8))}))
						continue
					}
				}
				out = strConcat(out, mkStr(string(rune(g.concInt(r, ek, "rune to string")))))
			}
			return out
		}
	case kf.k == kString:
		if s, ok := to.Underlying().(*types.Slice); ok {
			ek := kindOf(s.Elem())
			if ek.w == 8 {
				b := strBytes(x)
				a := make([]Value, len(b))
				copy(a, b)
				return mkSlice(a)
			}
			var out []Value
			it := &strIter{s: x}
			for {
				r := g.next(Value{P: it}, nil).P.([]Value)
				if r[0].C == 0 {
					break
				}
				out = append(out, r[2])
			}
			if out == nil {
				out = []Value{}
			}
			return mkSlice(out)
		}
	}
	// pointers / unsafe pointers / channels direction
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return x
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	if _, ok := to.Underlying().(*types.Slice); ok {
		return x
	}
	if _, ok := to.Underlying().(*types.Chan); ok {
		return x
	}
	panic(unsupported{fmt.Sprintf("convert %v to %v", from, to)})
}
