package main

import (
	"bufio"
	"fmt"
	"math/bits"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// The integer back end: a query whose terms provably do not wrap (by interval analysis) is printed over
// mathematical integers instead of bit-vectors. Anything else stays with the bit-vector solver.

type imode struct {
	done  bool
	ok    bool
	vars  []*Term
	wide  bool
	depth int
}

type intInfo struct {
	s, u imode // signed / unsigned view (booleans use s)
}

func (tc *TC) intInfoOf(t *Term) *intInfo {
	if t.ii == nil {
		t.ii = &intInfo{}
	}
	return t.ii
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) > 400 || len(b) > 400 {
		// give up de-duplication on very wide terms
		return append(append([]*Term{}, a...), b...)
	}
	seen := make(map[*Term]bool, len(a))
	for _, x := range a {
		seen[x] = true
	}
	out := a
	copied := false
	for _, x := range b {
		if !seen[x] {
			if !copied {
				out = append([]*Term{}, a...)
				copied = true
			}
			out = append(out, x)
		}
	}
	return out
}

func (t *Term) nonneg() bool { return t.lo >= 0 }

func exactRange(t *Term) bool {
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OpAdd:
		l, ok1 := addOv(a.lo, b.lo)
		h, ok2 := addOv(a.hi, b.hi)
		return ok1 && ok2 && l >= smin(t.w) && h <= smax(t.w)
	case OpSub:
		if b.lo == smin(64) {
			return false
		}
		l, ok1 := addOv(a.lo, -b.hi)
		h, ok2 := addOv(a.hi, -b.lo)
		return ok1 && ok2 && l >= smin(t.w) && h <= smax(t.w)
	case OpMul:
		for _, p := range [][2]int64{{a.lo, b.lo}, {a.lo, b.hi}, {a.hi, b.lo}, {a.hi, b.hi}} {
			if p[0] == smin(64) || p[1] == smin(64) {
				return false
			}
			v, ok := mulOv(p[0], p[1])
			if !ok || v < smin(t.w) || v > smax(t.w) {
				return false
			}
		}
		return true
	}
	return false
}

// intable reports whether the signed (u=false) or unsigned view of t is expressible.
func (tc *TC) intable(t *Term, u bool) *imode {
	ii := tc.intInfoOf(t)
	m := &ii.s
	if u && t.w > 0 {
		m = &ii.u
	}
	if m.done {
		return m
	}
	m.done = true
	sub := func(x *Term, u bool) bool {
		o := tc.intable(x, u)
		if !o.ok {
			return false
		}
		m.vars = mergeVars(m.vars, o.vars)
		m.wide = m.wide || o.wide
		return true
	}
	if u && t.w > 0 {
		if t.nonneg() {
			m.ok = sub(t, false)
			return m
		}
		switch t.op {
		case OpConst:
			m.ok = true
		case OpVar:
			m.ok = t.w < 64
			m.vars = []*Term{t}
			m.wide = t.w > 8
		case OpZExt:
			m.ok = t.a[0].w > 0 && sub(t.a[0], true)
		case OpIte:
			m.ok = sub(t.a[0], false) && sub(t.a[1], true) && sub(t.a[2], true)
		case OpAdd, OpSub:
			m.ok = t.w <= 32 && sub(t.a[0], true) && sub(t.a[1], true)
		case OpTrunc:
			m.ok = t.w <= 32 && (sub(t.a[0], false))
		}
		return m
	}
	switch t.op {
	case OpConst:
		m.ok = true
	case OpVar:
		m.ok = true
		m.vars = []*Term{t}
		m.wide = t.w > 8
	case OpNot, OpAnd, OpOr:
		m.ok = true
		for i := 0; i < int(t.n) && m.ok; i++ {
			m.ok = sub(t.a[i], false)
		}
	case OpEq:
		if sub(t.a[0], false) && sub(t.a[1], false) {
			m.ok = true
		} else if t.a[0].w > 0 && sub(t.a[0], true) && sub(t.a[1], true) {
			m.ok = true
			m.depth = 1 // unsigned comparison
		}
	case OpIte:
		m.ok = sub(t.a[0], false) && sub(t.a[1], false) && sub(t.a[2], false)
	case OpAdd, OpSub:
		m.ok = exactRange(t) && sub(t.a[0], false) && sub(t.a[1], false)
	case OpMul:
		m.ok = (t.a[0].isConst() || t.a[1].isConst()) && exactRange(t) && sub(t.a[0], false) && sub(t.a[1], false)
	case OpSDiv, OpSRem, OpUDiv, OpURem:
		m.ok = t.a[1].isConst() && t.a[1].lo > 0 && t.a[0].nonneg() && sub(t.a[0], false)
	case OpSLt, OpSLe:
		m.ok = sub(t.a[0], false) && sub(t.a[1], false)
	case OpULt, OpULe:
		m.ok = sub(t.a[0], true) && sub(t.a[1], true)
	case OpZExt:
		m.ok = sub(t.a[0], t.a[0].w > 0)
	case OpSExt:
		m.ok = sub(t.a[0], false)
	case OpTrunc:
		m.ok = t.a[0].lo >= smin(t.w) && t.a[0].hi <= smax(t.w) && sub(t.a[0], false)
	case OpLShr, OpAShr:
		m.ok = t.a[1].isConst() && t.a[1].c < 62 && t.a[0].nonneg() && sub(t.a[0], false)
	case OpShl:
		if t.a[1].isConst() && t.a[1].c < 62 && t.a[0].nonneg() {
			h, ok := mulOv(t.a[0].hi, 1<<t.a[1].c)
			m.ok = ok && h <= smax(t.w) && sub(t.a[0], false)
		}
	case OpBAnd:
		for i := 0; i < 2; i++ {
			c, o := t.a[i], t.a[1-i]
			if c.isConst() && c.lo > 0 && bits.OnesCount64(c.c+1) == 1 && o.nonneg() {
				m.ok = sub(o, false)
				m.depth = i
				break
			}
		}
	}
	return m
}

type IntSolver struct {
	tc      *TC
	cmd     *exec.Cmd
	in      *bufio.Writer
	closer  interface{ Close() error }
	out     *bufio.Reader
	gen     uint32
	stack   []*Term
	bounded []map[*Term]bool // per stack level
	isB     map[*Term]bool
	defined int
	timeout int
	bin     string
	queries int
}

func NewIntSolver(tc *TC, bin string, timeoutMs int) *IntSolver {
	s := &IntSolver{tc: tc, bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *IntSolver) start() {
	s.gen++
	s.stack, s.bounded, s.isB = nil, nil, map[*Term]bool{}
	s.defined = 0
	s.cmd = exec.Command(s.bin, "-in", "-memory:3000")
	ip, _ := s.cmd.StdinPipe()
	op, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.closer = ip
	s.in = bufio.NewWriterSize(ip, 1<<16)
	s.out = bufio.NewReaderSize(op, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-logic QF_LIA)\n", s.timeout)
}

func (s *IntSolver) Close() {
	if s.cmd != nil {
		s.closer.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func itoa(v int64) string {
	if v < 0 {
		if v == smin(64) {
			return "(- 9223372036854775808)"
		}
		return "(- " + strconv.FormatInt(-v, 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}

func pow2(w uint8) string {
	if w == 64 {
		return "18446744073709551616"
	}
	return strconv.FormatUint(1<<w, 10)
}

// varRange is the range of the integer standing for a variable, and whether that integer is the signed view.
func varRange(t *Term) (lo, hi int64, signed bool) {
	if t.w == 64 {
		return t.lo, t.hi, true
	}
	if t.lo != smin(t.w) || t.hi != smax(t.w) {
		return t.lo, t.hi, true
	}
	return 0, int64(mask(t.w)), false
}

func (s *IntSolver) ref(t *Term, u bool) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		if u {
			return strconv.FormatUint(t.c&mask(t.w), 10)
		}
		return itoa(sext(t.c, t.w))
	}
	if t.w == 0 {
		if t.op == OpVar {
			return "|" + t.name + "|"
		}
		return "b" + strconv.Itoa(t.id)
	}
	if u && t.nonneg() {
		u = false
	}
	if t.op == OpVar {
		_, _, signed := varRange(t)
		if signed == !u || t.nonneg() {
			return "|" + t.name + "|"
		}
	}
	if u {
		return "u" + strconv.Itoa(t.id)
	}
	return "i" + strconv.Itoa(t.id)
}

func (s *IntSolver) emit(t *Term, u bool) {
	if t.op == OpConst {
		return
	}
	if u && (t.w == 0 || t.nonneg()) {
		u = false
	}
	g := &t.emS
	if u {
		g = &t.emU
	}
	if *g == s.gen {
		return
	}
	*g = s.gen
	s.defined++
	if t.op == OpVar {
		if t.emGenI != s.gen {
			t.emGenI = s.gen
			if t.w == 0 {
				s.in.WriteString("(declare-const |" + t.name + "| Bool)\n")
			} else {
				s.in.WriteString("(declare-const |" + t.name + "| Int)\n")
			}
		}
		if t.w == 0 {
			return
		}
		_, _, signed := varRange(t)
		if !signed && !u && !t.nonneg() {
			fmt.Fprintf(s.in, "(define-fun i%d () Int (ite (>= |%s| %s) (- |%s| %s) |%s|))\n", t.id, t.name, pow2(t.w-1), t.name, pow2(t.w), t.name)
		}
		return
	}
	var e string
	r := func(i int, u bool) string {
		s.emit(t.a[i], u)
		return s.ref(t.a[i], u)
	}
	m := s.tc.intable(t, u)
	switch t.op {
	case OpNot:
		e = "(not " + r(0, false) + ")"
	case OpAnd:
		e = "(and " + r(0, false) + " " + r(1, false) + ")"
	case OpOr:
		e = "(or " + r(0, false) + " " + r(1, false) + ")"
	case OpEq:
		uu := m.depth == 1
		e = "(= " + r(0, uu) + " " + r(1, uu) + ")"
	case OpIte:
		e = "(ite " + r(0, false) + " " + r(1, u) + " " + r(2, u) + ")"
	case OpAdd, OpSub:
		o := map[Op]string{OpAdd: "+", OpSub: "-"}[t.op]
		if u {
			e = "(mod (" + o + " " + r(0, true) + " " + r(1, true) + ") " + pow2(t.w) + ")"
		} else {
			e = "(" + o + " " + r(0, false) + " " + r(1, false) + ")"
		}
	case OpMul:
		e = "(* " + r(0, false) + " " + r(1, false) + ")"
	case OpSDiv, OpUDiv:
		e = "(div " + r(0, false) + " " + r(1, false) + ")"
	case OpSRem, OpURem:
		e = "(mod " + r(0, false) + " " + r(1, false) + ")"
	case OpSLt:
		e = "(< " + r(0, false) + " " + r(1, false) + ")"
	case OpSLe:
		e = "(<= " + r(0, false) + " " + r(1, false) + ")"
	case OpULt:
		e = "(< " + r(0, true) + " " + r(1, true) + ")"
	case OpULe:
		e = "(<= " + r(0, true) + " " + r(1, true) + ")"
	case OpZExt:
		if t.a[0].w == 0 {
			e = "(ite " + r(0, false) + " 1 0)"
		} else {
			e = r(0, true)
		}
	case OpSExt:
		e = r(0, false)
	case OpTrunc:
		if u {
			e = "(mod " + r(0, false) + " " + pow2(t.w) + ")"
		} else {
			e = r(0, false)
		}
	case OpLShr, OpAShr:
		e = "(div " + r(0, false) + " " + strconv.FormatUint(1<<t.a[1].c, 10) + ")"
	case OpShl:
		e = "(* " + r(0, false) + " " + strconv.FormatUint(1<<t.a[1].c, 10) + ")"
	case OpBAnd:
		e = "(mod " + r(1-m.depth, false) + " " + strconv.FormatUint(t.a[m.depth].c+1, 10) + ")"
	default:
		panic("int emit " + opNames[t.op])
	}
	so := "Int"
	if t.w == 0 {
		so = "Bool"
	}
	s.in.WriteString("(define-fun " + s.ref(t, u) + " () " + so + " " + e + ")\n")
}

func (s *IntSolver) pushTerm(t *Term) {
	s.emit(t, false)
	s.in.WriteString("(push 1)\n")
	lv := map[*Term]bool{}
	for _, v := range s.tc.intable(t, false).vars {
		if v.w > 0 && !s.isB[v] {
			lo, hi, _ := varRange(v)
			fmt.Fprintf(s.in, "(assert (and (<= %s |%s|) (<= |%s| %s)))\n", itoa(lo), v.name, v.name, itoa(hi))
			s.isB[v] = true
			lv[v] = true
		}
	}
	s.in.WriteString("(assert " + s.ref(t, false) + ")\n")
	s.stack = append(s.stack, t)
	s.bounded = append(s.bounded, lv)
}

func (s *IntSolver) popTo(k int) {
	if k >= len(s.stack) {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-k)
	for i := k; i < len(s.stack); i++ {
		for v := range s.bounded[i] {
			delete(s.isB, v)
		}
	}
	s.stack = s.stack[:k]
	s.bounded = s.bounded[:k]
}

func (s *IntSolver) Check(pc []*Term, extra *Term, vars []*Term) (Res, Model) {
	if s.defined > 300000 {
		s.Close()
		s.start()
	}
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.popTo(k)
	for ; k < len(pc); k++ {
		s.pushTerm(pc[k])
	}
	if extra != nil {
		s.pushTerm(extra)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	s.queries++
	fail := func() (Res, Model) {
		s.Close()
		s.start()
		return Unknown, nil
	}
	var l string
	var err error
	for {
		l, err = s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if err != nil || l != "" {
			break
		}
	}
	if err != nil || strings.HasPrefix(l, "(error") {
		return fail()
	}
	switch l {
	case "unsat":
		return Unsat, nil
	case "sat":
	default:
		return fail()
	}
	m := Model{}
	var ask []*Term
	for _, v := range vars {
		if v.w == 0 && v.emGenI == s.gen || s.isB[v] {
			ask = append(ask, v)
			continue
		}
		if v.w > 0 {
			lo, hi, _ := varRange(v)
			x := int64(0)
			if lo > 0 || hi < 0 {
				x = lo
			}
			m[v.name] = uint64(x) & mask(v.w)
		} else {
			m[v.name] = 0
		}
	}
	if len(ask) > 0 {
		s.in.WriteString("(get-value (")
		for _, v := range ask {
			s.in.WriteString("|" + v.name + "| ")
		}
		s.in.WriteString("))\n")
		s.in.Flush()
		depth, bar := 0, false
		var sb strings.Builder
		for {
			c, err := s.out.ReadByte()
			if err != nil {
				return fail()
			}
			sb.WriteByte(c)
			if c == '|' {
				bar = !bar
			}
			if bar {
				continue
			}
			if c == '(' {
				depth++
			}
			if c == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
		}
		if !parseIntModel(strings.TrimSpace(sb.String()), ask, m) {
			return fail()
		}
	}
	return Sat, m
}

func parseIntModel(sx string, vars []*Term, m Model) bool {
	if strings.HasPrefix(sx, "(error") {
		return false
	}
	i := 0
	for _, v := range vars {
		j := strings.Index(sx[i:], "|"+v.name+"|")
		if j < 0 {
			return false
		}
		i += j + len(v.name) + 2
		e := i
		d := 0
		for e < len(sx) && (d > 0 || sx[e] != ')') {
			if sx[e] == '(' {
				d++
			}
			if sx[e] == ')' {
				d--
			}
			e++
		}
		x := strings.TrimSpace(sx[i:e])
		i = e
		if v.w == 0 {
			if x == "true" {
				m[v.name] = 1
			} else {
				m[v.name] = 0
			}
			continue
		}
		neg := false
		if strings.HasPrefix(x, "(-") {
			neg = true
			x = strings.TrimSpace(strings.Trim(x, "(-) "))
		}
		n, err := strconv.ParseUint(x, 10, 64)
		if err != nil {
			return false
		}
		if neg {
			n = -n
		}
		m[v.name] = n & mask(v.w)
	}
	return true
}

// Backends combines the two encodings.
type Backends struct {
	tc    *TC
	bv    *Solver
	it    *IntSolver
	bin   string
	stats SolverStats
	ints  int
}

func NewBackends(tc *TC, bin string, timeoutMs int) *Backends {
	return &Backends{tc: tc, bv: NewSolver(tc, bin, timeoutMs), bin: bin}
}

func (b *Backends) Close() {
	b.bv.Close()
	if b.it != nil {
		b.it.Close()
	}
}

func (b *Backends) Check(pc []*Term, extra *Term, vars []*Term) (Res, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		b.stats.Time += d
		if d > b.stats.MaxQuery {
			b.stats.MaxQuery = d
		}
	}()
	ok, wide := true, false
	chk := func(t *Term) {
		m := b.tc.intable(t, false)
		ok = ok && m.ok
		wide = wide || m.wide
	}
	for i := len(pc) - 1; i >= 0 && ok; i-- {
		chk(pc[i])
	}
	if ok && extra != nil {
		chk(extra)
	}
	count := func(r Res) {
		b.stats.Queries++
		switch r {
		case Sat:
			b.stats.Sat++
		case Unsat:
			b.stats.Unsat++
		default:
			b.stats.Unknown++
		}
	}
	if ok && wide {
		if b.it == nil {
			b.it = NewIntSolver(b.tc, b.bin, 10000)
		}
		r, m := b.it.Check(pc, extra, vars)
		if r != Unknown {
			b.ints++
			if r == Sat {
				// the model is evaluated under the bit-vector semantics before it is believed
				good := true
				for _, t := range pc {
					if b.tc.Eval(t, m) != 1 {
						good = false
						break
					}
				}
				if good && extra != nil && b.tc.Eval(extra, m) != 1 {
					good = false
				}
				if !good {
					intMismatch++
					r2, m2 := b.bv.Check(pc, extra, vars)
					count(r2)
					return r2, m2
				}
			}
			count(r)
			return r, m
		}
	}
	r, m := b.bv.Check(pc, extra, vars)
	count(r)
	return r, m
}

var intMismatch int
