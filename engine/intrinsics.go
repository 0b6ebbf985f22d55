package main

import (
	"fmt"
	"go/types"
	"math"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(g *G, fn *ssa.Function, args []Value) Value

var kI64 = kindInfo{64, true, kInt}

const rt = "common/verifrt."

var intrinsics map[string]intrinsic

func isHarnessFile(name string) bool {
	return strings.HasPrefix(filepath.Base(name), "zz_verif") || strings.Contains(name, "/verifrt/")
}

func shortFile(n string) string {
	if i := strings.Index(n, "/src/"); i >= 0 && strings.HasPrefix(n, repoDir) {
		return n[i+5:]
	}
	return filepath.Base(n)
}

func lookupIntrinsic(key string, fn *ssa.Function) intrinsic {
	if in := intrinsics[key]; in != nil {
		return in
	}
	return nil
}

var noopPkgs = []string{"github.com/sirupsen/logrus", "common/logs", "log", "github.com/antonfisher/nested-logrus-formatter", "log/slog", "go.uber.org/zap"}

func isNoop(fn *ssa.Function, key string) bool {
	f := fn
	if f.Origin() != nil {
		f = f.Origin()
	}
	var pkg string
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Path()
	} else if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	for _, n := range noopPkgs {
		if pkg == n && f.Name() != "init" {
			return true
		}
	}
	return false
}

func noopResult(g *G, fn *ssa.Function) Value {
	n := fn.Name()
	if strings.HasPrefix(n, "Fatal") {
		g.p.end("exit", "log fatal")
	}
	if strings.HasPrefix(n, "Panic") {
		panic(targetPanic{Value{P: &Iface{T: types.Typ[types.String], V: mkStr("log." + n)}}})
	}
	res := fn.Signature.Results()
	mk := func(t types.Type) Value {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			c := new(Value)
			*c = zero(p.Elem())
			return Value{P: c}
		}
		return zero(t)
	}
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return mk(res.At(0).Type())
	}
	r := make([]Value, res.Len())
	for i := range r {
		r[i] = mk(res.At(i).Type())
	}
	return Value{P: r}
}

func cstr(g *G, v Value) string {
	s, ok := strConc(v)
	if !ok {
		panic(unsupported{"symbolic string where concrete is required"})
	}
	return s
}

func (p *Path) obsRaw() []func(Model) string { return p.obsF }

func (p *Path) observe(label string, f func(Model) string) {
	p.obsF = append(p.obsF, func(m Model) string { return label + "=" + f(m) })
}

func (g *G) valString(v Value, k kindInfo, m Model) string {
	tc := g.p.w.tc
	switch k.k {
	case kInt:
		c := v.C
		if t := v.sym(); t != nil {
			c = tc.Eval(t, m)
		}
		if k.signed {
			return strconv.FormatInt(sext(c, k.w), 10)
		}
		return strconv.FormatUint(c, 10)
	case kBool:
		c := v.C
		if t := v.sym(); t != nil {
			c = tc.Eval(t, m)
		}
		return strconv.FormatBool(c == 1)
	case kString:
		var b []byte
		for _, x := range strBytes(v) {
			if t := x.sym(); t != nil {
				b = append(b, byte(tc.Eval(t, m)))
			} else {
				b = append(b, byte(x.C))
			}
		}
		return strconv.Quote(string(b))
	case kFloat64:
		return fmt.Sprint(f64(v))
	}
	return "?"
}

func init() {
	intrinsics = map[string]intrinsic{}
	I := intrinsics

	// ---- verifrt ----
	intVar := func(w uint8, full bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			name := cstr(g, a[0])
			if full {
				return mkTerm(g.p.newVar(name, w, 0, 0, false))
			}
			lo, hi := sext(a[1].C, 64), sext(a[2].C, 64)
			if a[1].P != nil || a[2].P != nil {
				panic(unsupported{"symbolic range bounds"})
			}
			if lo > hi {
				g.p.end("infeasible", "")
			}
			return mkTerm(g.p.newVar(name, w, lo, hi, true))
		}
	}
	I[rt+"Int"] = intVar(64, false)
	I[rt+"AnyInt"] = intVar(64, true)
	I[rt+"AnyInt64"] = intVar(64, true)
	I[rt+"AnyUint64"] = intVar(64, true)
	I[rt+"AnyUint32"] = intVar(32, true)
	I[rt+"AnyInt32"] = intVar(32, true)
	I[rt+"AnyByte"] = intVar(8, true)
	I[rt+"AnyBool"] = intVar(0, true)
	I[rt+"AnyBytes"] = func(g *G, fn *ssa.Function, a []Value) Value {
		name := cstr(g, a[0])
		n := g.concInt(a[1], kI64, "AnyBytes")
		r := make([]Value, n)
		for i := range r {
			r[i] = mkTerm(g.p.newVar(name, 8, 0, 0, false))
		}
		return mkSlice(r)
	}
	I[rt+"AnyString"] = func(g *G, fn *ssa.Function, a []Value) Value {
		name := cstr(g, a[0])
		n := g.concInt(a[1], kI64, "AnyString")
		r := make([]Value, n)
		for i := range r {
			r[i] = mkTerm(g.p.newVar(name, 8, 0, 0, false))
		}
		return mkSymStr(r)
	}
	I[rt+"Choice"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := sext(a[1].C, 64)
		if n <= 0 {
			g.p.end("infeasible", "")
		}
		t := g.p.newVar(cstr(g, a[0]), 64, 0, n-1, true)
		if n == 1 {
			return Value{}
		}
		sv := g.p.maxFork
		g.p.maxFork = max(sv, int(n)+1)
		r := g.p.concretize(t, "choice")
		g.p.maxFork = sv
		return mkInt(r)
	}
	I[rt+"Conc"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkInt(uint64(g.concInt(a[0], kI64, "Conc")))
	}
	I[rt+"MaxFork"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.maxFork = int(a[0].C)
		return Value{}
	}
	I[rt+"MaxSteps"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.stepLimit = g.p.steps + int64(a[0].C)
		return Value{}
	}
	I[rt+"Terminates"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.stepLimit = g.p.steps + int64(a[0].C)
		g.p.fsteps = map[string]int64{}
		return Value{}
	}
	I[rt+"Assume"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.assume(a[0].term(g.p.w.tc, 0))
		return Value{}
	}
	I[rt+"Assert"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.assertT(a[0].term(g.p.w.tc, 0), cstr(g, a[1]), g)
		return Value{}
	}
	I[rt+"Reach"] = func(g *G, fn *ssa.Function, a []Value) Value {
		l := cstr(g, a[0])
		ex := g.p.ex
		ex.mu.Lock()
		ex.reach[l]++
		need := ex.witness[l] == nil
		ex.mu.Unlock()
		if need {
			if s := g.p.sample(nil); s != nil {
				ex.mu.Lock()
				ex.witness[l] = s
				ex.mu.Unlock()
			}
		}
		return Value{}
	}
	I[rt+"Bound"] = func(g *G, fn *ssa.Function, a []Value) Value {
		v := sext(a[1].C, 64)
		if g.p.ex.tier == "thorough" {
			v = sext(a[2].C, 64)
		}
		g.p.ex.mu.Lock()
		g.p.ex.bounds[cstr(g, a[0])] = int(v)
		g.p.ex.mu.Unlock()
		return mkInt(uint64(v))
	}
	I[rt+"Symbolic"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkBool(true) }
	I[rt+"Finding"] = func(g *G, fn *ssa.Function, a []Value) Value {
		id := cstr(g, a[0])
		if g.p.ex.knownIDs[id] {
			g.p.findings = append(g.p.findings, findingCond{id, a[1].term(g.p.w.tc, 0)})
		}
		return Value{}
	}
	I[rt+"Schedules"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.schedMode = true
		g.p.preempt = int(a[0].C)
		g.p.ex.mu.Lock()
		g.p.ex.bounds["preemptions"] = int(a[0].C)
		g.p.ex.mu.Unlock()
		return Value{}
	}
	I[rt+"Races"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.raceOn()
		return Value{}
	}
	I[rt+"EndSchedules"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.schedMode = false
		return Value{}
	}
	I[rt+"MapOrder"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.mapOrder = a[0].C == 1
		return Value{}
	}
	I[rt+"Drain"] = func(g *G, fn *ssa.Function, a []Value) Value {
		// run all other goroutines until they are blocked or finished (or draining themselves)
		g.draining = true
		defer func() {
			g.draining = false
			if g.p.race != nil { // the native run pauses here
				for _, x := range g.p.gs {
					if x != g && !x.draining {
						g.meet(x, true)
					}
				}
			}
		}()
		for {
			any := false
			for _, x := range g.p.gs {
				if x != g && x.state == gRunnable && !x.draining {
					any = true
				}
			}
			if !any {
				// let sleepers run (virtual time)
				var best *G
				for _, x := range g.p.gs {
					if x.state == gSleeping && (best == nil || x.wakeAt < best.wakeAt) {
						best = x
					}
				}
				if best == nil || best.wakeAt > g.p.clock+1_000_000_000 {
					return Value{}
				}
				g.p.clock = best.wakeAt
				best.state = gRunnable
				continue
			}
			g.yield()
		}
	}
	I[rt+"And"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.andV(a[0], a[1]) }
	I[rt+"Or"] = func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return mkTerm(tc.Or(a[0].term(tc, 0), a[1].term(tc, 0)))
	}
	I[rt+"Not"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.notV(a[0]) }
	I[rt+"Implies"] = func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return mkTerm(tc.Or(tc.Not(a[0].term(tc, 0)), a[1].term(tc, 0)))
	}
	I[rt+"IteInt"] = func(g *G, fn *ssa.Function, a []Value) Value {
		tc := g.p.w.tc
		return mkTerm(tc.Ite(a[0].term(tc, 0), a[1].term(tc, 64), a[2].term(tc, 64)))
	}
	I[rt+"EqBytes"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.bytesEq(sliceOf(a[0]), sliceOf(a[1])) }
	I[rt+"EqString"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.strEq(a[0], a[1]) }
	target := func(v Value) (*Iface, *Value, types.Type) {
		i, ok := v.P.(*Iface)
		if !ok {
			return nil, nil, nil
		}
		pt, ok := i.T.Underlying().(*types.Pointer)
		if !ok {
			return i, nil, nil
		}
		c, _ := i.V.P.(*Value)
		return i, c, pt.Elem()
	}
	I[rt+"PrivInt"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, c, t := target(a[0])
		name, _ := strConc(a[1])
		if c != nil {
			if st, ok := t.Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if f := st.Field(i); f.Name() == name {
						return g.convert(f.Type(), types.Typ[types.Int64], kindOf(f.Type()), kI64, c.P.(*Agg).f[i])
					}
				}
			}
		}
		panic(unsupported{"PrivInt " + name})
	}
	I[rt+"Fields"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, c, t := target(a[0])
		if c == nil {
			return Value{}
		}
		st, ok := t.Underlying().(*types.Struct)
		ag, ok2 := c.P.(*Agg)
		if !ok || !ok2 {
			return Value{}
		}
		var fs []Value
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Exported() && !f.Embedded() {
				continue
			}
			kind := "other"
			switch u := f.Type().Underlying().(type) {
			case *types.Basic:
				switch {
				case u.Info()&types.IsString != 0:
					kind = "string"
				case u.Info()&types.IsBoolean != 0:
					kind = "bool"
				case u.Info()&types.IsUnsigned != 0:
					kind = "uint"
				case u.Info()&types.IsInteger != 0:
					kind = "int"
				case u.Info()&types.IsFloat != 0:
					kind = "float"
				}
			case *types.Struct:
				kind = "struct"
			case *types.Slice:
				kind = "slice"
			case *types.Pointer:
				kind = "ptr"
			}
			ptr := Value{}
			if f.Exported() {
				ptr = Value{P: &Iface{T: types.NewPointer(f.Type()), V: Value{P: &ag.f[i]}}}
			}
			fs = append(fs, Value{P: &Agg{f: []Value{mkStr(f.Name()), mkStr(st.Tag(i)), mkStr(kind), ptr, mkBool(f.Embedded())}}})
		}
		return mkSlice(fs)
	}
	I[rt+"SetInt"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, c, t := target(a[0])
		storeTo(c, g.convert(types.Typ[types.Int64], t, kI64, kindOf(t), a[1]))
		return Value{}
	}
	I[rt+"GetInt"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, c, t := target(a[0])
		return g.convert(t, types.Typ[types.Int64], kindOf(t), kI64, *c)
	}
	I[rt+"SetString"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, c, _ := target(a[0])
		storeTo(c, a[1])
		return Value{}
	}
	I[rt+"SetBool"] = I[rt+"SetString"]
	I[rt+"GetString"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, c, _ := target(a[0])
		return *c
	}
	I[rt+"Copy"] = func(g *G, fn *ssa.Function, a []Value) Value {
		_, d, dt := target(a[0])
		// a value that is not a pointer is copied itself
		if i, ok := a[1].P.(*Iface); ok && i != nil && d != nil && i.T != nil && types.Identical(dt, i.T) {
			storeTo(d, copyVal(i.V))
			return mkBool(true)
		}
		_, s, st := target(a[1])
		if d == nil || s == nil || !types.Identical(dt, st) {
			return mkBool(false)
		}
		storeTo(d, copyVal(*s))
		return mkBool(true)
	}
	var deep func(v Value) Value
	deep = func(v Value) Value {
		switch x := v.P.(type) {
		case *Agg:
			n := &Agg{f: make([]Value, len(x.f))}
			for i, e := range x.f {
				n.f[i] = deep(e)
			}
			return Value{P: n}
		case *SliceV:
			n := make([]Value, len(x.a))
			for i, e := range x.a {
				n[i] = deep(e)
			}
			return mkSlice(n)
		case *Value:
			if x == nil {
				return v
			}
			c := new(Value)
			*c = deep(*x)
			return Value{P: c}
		case *Iface:
			return Value{P: &Iface{T: x.T, V: deep(x.V)}}
		case *MapObj:
			n := newMap(types.NewMap(x.key, x.elem))
			n.live, n.nsym = x.live, x.nsym
			for _, e := range x.ents {
				if e.dead {
					continue
				}
				ne := &mapEnt{k: e.k, v: deep(e.v)}
				n.ents = append(n.ents, ne)
				if ck, ok := concKey(e.k); ok {
					n.idx[ck] = ne
				}
			}
			return Value{P: n}
		}
		return v
	}
	I[rt+"Clone"] = func(g *G, fn *ssa.Function, a []Value) Value { return deep(a[0]) }
	I[rt+"TypeName"] = func(g *G, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].P.(*Iface)
		if !ok {
			return mkStr("<nil>")
		}
		return mkStr(types.TypeString(i.T, func(p *types.Package) string { return p.Name() }))
	}
	I[rt+"ObserveInt"] = func(g *G, fn *ssa.Function, a []Value) Value {
		v := a[1]
		g.p.observe(cstr(g, a[0]), func(m Model) string { return g.valString(v, kI64, m) })
		return Value{}
	}
	I[rt+"ObserveStr"] = func(g *G, fn *ssa.Function, a []Value) Value {
		v := a[1]
		g.p.observe(cstr(g, a[0]), func(m Model) string { return g.valString(v, kindInfo{k: kString}, m) })
		return Value{}
	}
	I[rt+"ObserveBool"] = func(g *G, fn *ssa.Function, a []Value) Value {
		v := a[1]
		g.p.observe(cstr(g, a[0]), func(m Model) string { return g.valString(v, kindInfo{k: kBool}, m) })
		return Value{}
	}
	I[rt+"Thorough"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkBool(g.p.ex.tier == "thorough") }
	I[rt+"Now"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkInt(uint64(g.p.clock)) }
	I[rt+"Advance"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.sleep(sext(a[0].C, 64)) // others run and timers fire meanwhile, as in the native run
		return Value{}
	}
	// idealised collision-free hash: equal contents <=> equal digests; concrete content hashes to
	// a digest that depends only on the order of first appearance.
	I[rt+"IdealHash"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkStr(g.idealHash(sliceOf(a[0])))
	}

	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(g *G, fn *ssa.Function, a []Value) Value { g.mutexLock(g.addrKey(a[0]), true); return Value{} }
	I["(*sync.Mutex).Unlock"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.mutexUnlock(g.addrKey(a[0]), true)
		return Value{}
	}
	I["(*sync.Mutex).TryLock"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkBool(g.mutexTryLock(g.addrKey(a[0]), true))
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).TryLock"] = I["(*sync.Mutex).TryLock"]
	I["(*sync.RWMutex).RLock"] = func(g *G, fn *ssa.Function, a []Value) Value { g.mutexLock(g.addrKey(a[0]), false); return Value{} }
	I["(*sync.RWMutex).RUnlock"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.mutexUnlock(g.addrKey(a[0]), false)
		return Value{}
	}
	I["(*sync.RWMutex).TryRLock"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkBool(g.mutexTryLock(g.addrKey(a[0]), false))
	}
	I["(*sync.WaitGroup).Add"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.wgAdd(g.addrKey(a[0]), g.concInt(a[1], kI64, "wg.Add"))
		return Value{}
	}
	I["(*sync.WaitGroup).Done"] = func(g *G, fn *ssa.Function, a []Value) Value { g.wgAdd(g.addrKey(a[0]), -1); return Value{} }
	I["(*sync.WaitGroup).Wait"] = func(g *G, fn *ssa.Function, a []Value) Value { g.wgWait(g.addrKey(a[0])); return Value{} }
	I["(*sync.WaitGroup).Go"] = func(g *G, fn *ssa.Function, a []Value) Value {
		wa := g.addrKey(a[0])
		g.wgAdd(wa, 1)
		f := a[1]
		g.spawn(Value{P: &nativeFn{"wg.Go", func(g2 *G, _ []Value) Value {
			g2.callValue(f, nil, nil)
			g2.wgAdd(wa, -1)
			return Value{}
		}}}, nil, nil)
		return Value{}
	}
	I["(*sync.Once).Do"] = func(g *G, fn *ssa.Function, a []Value) Value { g.onceDo(g.addrKey(a[0]), a[1]); return Value{} }
	I["(*sync.Pool).Get"] = func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.addrKey(a[0])
		if l, ok := g.p.sync[c].(*[]pooled); ok && len(*l) > 0 {
			at := len(*l) - 1
			if r := g.p.race; r != nil && (*l)[at].g != g {
				// an item of another goroutine orders what they do: a pool may also have dropped it
				if r.drop == 0 {
					r.drop = 1 + g.p.choose(2, "pool")
				}
				if r.drop == 2 {
					for at >= 0 && (*l)[at].g != g {
						at--
					}
				}
			}
			if at >= 0 {
				v := (*l)[at]
				if v.g != g {
					g.acquire(c, 'p')
				}
				*l = append((*l)[:at:at], (*l)[at+1:]...)
				return v.v
			}
		}
		// New is the last field
		ag := c.P.(*Agg)
		nf := ag.f[len(ag.f)-1]
		if nf.P == nil {
			return Value{}
		}
		return g.callValue(nf, nil, nil)
	}
	I["(*sync.Pool).Put"] = func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.addrKey(a[0])
		g.release(c, 'p')
		l, ok := g.p.sync[c].(*[]pooled)
		if !ok {
			l = &[]pooled{}
			g.p.sync[c] = l
		}
		*l = append(*l, pooled{g, a[1]})
		return Value{}
	}
	I["(*sync.Cond).Wait"] = func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.addrKey(a[0])
		ag := c.P.(*Agg)
		var l Value
		for _, f := range ag.f {
			if _, ok := f.P.(*Iface); ok {
				l = f
			}
		}
		i := l.P.(*Iface)
		s := g.condOf(c)
		done := false
		s.wq = append(s.wq, &waiter{g: g, done: &done})
		g.callMethod(i, "Unlock")
		if !done {
			g.block("Cond.Wait")
		}
		g.callMethod(i, "Lock")
		return Value{}
	}
	I["(*sync.Cond).Signal"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.condOf(g.addrKey(a[0]))
		if w := popWaiter(&s.wq); w != nil {
			w.complete(Value{}, true)
		}
		return Value{}
	}
	I["(*sync.Cond).Broadcast"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.condOf(g.addrKey(a[0]))
		for w := popWaiter(&s.wq); w != nil; w = popWaiter(&s.wq) {
			w.complete(Value{}, true)
		}
		return Value{}
	}
	// sync.Map
	anyT := types.Universe.Lookup("any").Type()
	smap := func(g *G, v Value) *MapObj {
		c := g.addrKey(v)
		m, ok := g.p.sync[c].(*MapObj)
		if !ok {
			m = &MapObj{idx: map[string]*mapEnt{}, key: anyT, elem: anyT}
			g.p.sync[c] = m
		}
		return m
	}
	I["(*sync.Map).Load"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("map.load")
		g.syncAll(a[0].P)
		if e := g.mapFind(smap(g, a[0]), a[1]); e != nil {
			return Value{P: []Value{e.v, mkBool(true)}}
		}
		return Value{P: []Value{{}, mkBool(false)}}
	}
	I["(*sync.Map).Store"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("map.store")
		g.syncAll(a[0].P)
		g.mapSet(smap(g, a[0]), a[1], a[2])
		return Value{}
	}
	I["(*sync.Map).LoadOrStore"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("map.loadorstore")
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		if e := g.mapFind(m, a[1]); e != nil {
			return Value{P: []Value{e.v, mkBool(true)}}
		}
		g.mapSet(m, a[1], a[2])
		return Value{P: []Value{a[2], mkBool(false)}}
	}
	I["(*sync.Map).LoadAndDelete"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("map.loaddelete")
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		if e := g.mapFind(m, a[1]); e != nil {
			v := e.v
			g.mapDelete(m, a[1])
			return Value{P: []Value{v, mkBool(true)}}
		}
		return Value{P: []Value{{}, mkBool(false)}}
	}
	I["(*sync.Map).Swap"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		old, ok := Value{}, false
		if e := g.mapFind(m, a[1]); e != nil {
			old, ok = e.v, true
		}
		g.mapSet(m, a[1], a[2])
		return Value{P: []Value{old, mkBool(ok)}}
	}
	I["(*sync.Map).CompareAndSwap"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		if e := g.mapFind(m, a[1]); e != nil && g.truth(g.equals(anyT, e.v, a[2])) {
			e.v = a[3]
			return mkBool(true)
		}
		return mkBool(false)
	}
	I["(*sync.Map).CompareAndDelete"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		if e := g.mapFind(m, a[1]); e != nil && g.truth(g.equals(anyT, e.v, a[2])) {
			g.mapDelete(m, a[1])
			return mkBool(true)
		}
		return mkBool(false)
	}
	I["(*sync.Map).Delete"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("map.delete")
		g.syncAll(a[0].P)
		g.mapDelete(smap(g, a[0]), a[1])
		return Value{}
	}
	I["(*sync.Map).Clear"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		for _, e := range m.ents {
			e.dead = true
		}
		m.ents, m.idx, m.live, m.nsym = nil, map[string]*mapEnt{}, 0, 0
		return Value{}
	}
	I["(*sync.Map).Range"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		m := smap(g, a[0])
		for _, e := range append([]*mapEnt(nil), m.ents...) {
			if e.dead {
				continue
			}
			if !g.truth(g.callValue(a[1], []Value{e.k, e.v}, nil)) {
				break
			}
		}
		return Value{}
	}

	// ---- atomics ----
	for _, n := range []struct {
		s string
		k kindInfo
	}{{"Int32", kindInfo{32, true, kInt}}, {"Int64", kI64}, {"Uint32", kindInfo{32, false, kInt}}, {"Uint64", kindInfo{64, false, kInt}}, {"Uintptr", kindInfo{64, false, kInt}}, {"Pointer", kindInfo{k: kOther}}} {
		k := n.k
		ptr := n.s == "Pointer"
		I["sync/atomic.Load"+n.s] = func(g *G, fn *ssa.Function, a []Value) Value {
			g.schedPoint("atomic.load")
			g.syncAll(a[0].P)
			return *g.addrKey(a[0])
		}
		I["sync/atomic.Store"+n.s] = func(g *G, fn *ssa.Function, a []Value) Value {
			g.schedPoint("atomic.store")
			g.syncAll(a[0].P)
			*g.addrKey(a[0]) = a[1]
			return Value{}
		}
		I["sync/atomic.Swap"+n.s] = func(g *G, fn *ssa.Function, a []Value) Value {
			g.schedPoint("atomic.swap")
			g.syncAll(a[0].P)
			c := g.addrKey(a[0])
			old := *c
			*c = a[1]
			return old
		}
		I["sync/atomic.CompareAndSwap"+n.s] = func(g *G, fn *ssa.Function, a []Value) Value {
			g.schedPoint("atomic.cas")
			g.syncAll(a[0].P)
			c := g.addrKey(a[0])
			var eq bool
			if ptr {
				eq = c.P == a[1].P
			} else {
				tc := g.p.w.tc
				if c.P == nil && a[1].P == nil {
					eq = c.C == a[1].C
				} else {
					eq = g.p.branch(tc.Eq(c.term(tc, k.w), a[1].term(tc, k.w)))
				}
			}
			if eq {
				*c = a[2]
			}
			return mkBool(eq)
		}
		if !ptr {
			I["sync/atomic.Add"+n.s] = func(g *G, fn *ssa.Function, a []Value) Value {
				g.schedPoint("atomic.add")
				g.syncAll(a[0].P)
				c := g.addrKey(a[0])
				tc := g.p.w.tc
				if c.P == nil && a[1].P == nil {
					*c = Value{C: (c.C + a[1].C) & mask(k.w)}
				} else {
					*c = mkTerm(tc.Bin(OpAdd, c.term(tc, k.w), a[1].term(tc, k.w)))
				}
				return *c
			}
		}
	}
	atomicField := func(v Value, g *G) *Value {
		c := g.addrKey(v)
		if ag, ok := c.P.(*Agg); ok {
			return &ag.f[0]
		}
		return c
	}
	I["(*sync/atomic.Value).Load"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("atomic.load")
		g.syncAll(a[0].P)
		return *atomicField(a[0], g)
	}
	I["(*sync/atomic.Value).Store"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.schedPoint("atomic.store")
		g.syncAll(a[0].P)
		*atomicField(a[0], g) = a[1]
		return Value{}
	}
	I["(*sync/atomic.Value).Swap"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		c := atomicField(a[0], g)
		o := *c
		*c = a[1]
		return o
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.syncAll(a[0].P)
		c := atomicField(a[0], g)
		if g.truth(g.equals(anyT, *c, a[1])) {
			*c = a[2]
			return mkBool(true)
		}
		return mkBool(false)
	}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		// direct methods are interpreted; And/Or rarely used
		_ = n
	}

	// ---- bytealg / bytes / strings leaves ----
	indexByte := func(g *G, b []Value, c Value) Value {
		tc := g.p.w.tc
		for i, x := range b {
			if x.P == nil && c.P == nil {
				if x.C == c.C {
					return mkInt(uint64(i))
				}
				continue
			}
			if g.p.branch(tc.Eq(x.term(tc, 8), c.term(tc, 8))) {
				return mkInt(uint64(i))
			}
		}
		return mkInt(^uint64(0))
	}
	lastIndexByte := func(g *G, b []Value, c Value) Value {
		tc := g.p.w.tc
		for i := len(b) - 1; i >= 0; i-- {
			x := b[i]
			if x.P == nil && c.P == nil {
				if x.C == c.C {
					return mkInt(uint64(i))
				}
				continue
			}
			if g.p.branch(tc.Eq(x.term(tc, 8), c.term(tc, 8))) {
				return mkInt(uint64(i))
			}
		}
		return mkInt(^uint64(0))
	}
	index := func(g *G, b, s []Value) Value {
		for i := 0; i+len(s) <= len(b); i++ {
			if g.truth(g.bytesEq(b[i:i+len(s)], s)) {
				return mkInt(uint64(i))
			}
		}
		return mkInt(^uint64(0))
	}
	count := func(g *G, b []Value, c Value) Value {
		n := uint64(0)
		tc := g.p.w.tc
		for _, x := range b {
			if g.truth(mkTerm(tc.Eq(x.term(tc, 8), c.term(tc, 8)))) {
				n++
			}
		}
		return mkInt(n)
	}
	sOf := func(v Value) []Value { return strBytes(v) }
	for _, pk := range []string{"internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		I[pk] = func(g *G, fn *ssa.Function, a []Value) Value { return indexByte(g, sOf(a[0]), a[1]) }
	}
	for _, pk := range []string{"internal/bytealg.IndexByte", "bytes.IndexByte"} {
		I[pk] = func(g *G, fn *ssa.Function, a []Value) Value { return indexByte(g, sliceOf(a[0]), a[1]) }
	}
	I["internal/bytealg.LastIndexByteString"] = func(g *G, fn *ssa.Function, a []Value) Value { return lastIndexByte(g, sOf(a[0]), a[1]) }
	I["internal/bytealg.LastIndexByte"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return lastIndexByte(g, sliceOf(a[0]), a[1])
	}
	for _, pk := range []string{"internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index"} {
		I[pk] = func(g *G, fn *ssa.Function, a []Value) Value {
			if x, ok := strConc(a[0]); ok {
				if y, ok := strConc(a[1]); ok {
					return mkInt(uint64(int64(strings.Index(x, y))))
				}
			}
			return index(g, sOf(a[0]), sOf(a[1]))
		}
	}
	for _, pk := range []string{"internal/bytealg.Index", "bytes.Index"} {
		I[pk] = func(g *G, fn *ssa.Function, a []Value) Value { return index(g, sliceOf(a[0]), sliceOf(a[1])) }
	}
	I["strings.LastIndex"] = func(g *G, fn *ssa.Function, a []Value) Value {
		b, s := sOf(a[0]), sOf(a[1])
		for i := len(b) - len(s); i >= 0; i-- {
			if g.truth(g.bytesEq(b[i:i+len(s)], s)) {
				return mkInt(uint64(i))
			}
		}
		return mkInt(^uint64(0))
	}
	I["bytes.LastIndex"] = func(g *G, fn *ssa.Function, a []Value) Value {
		b, s := sliceOf(a[0]), sliceOf(a[1])
		for i := len(b) - len(s); i >= 0; i-- {
			if g.truth(g.bytesEq(b[i:i+len(s)], s)) {
				return mkInt(uint64(i))
			}
		}
		return mkInt(^uint64(0))
	}
	I["internal/bytealg.CountString"] = func(g *G, fn *ssa.Function, a []Value) Value { return count(g, sOf(a[0]), a[1]) }
	I["internal/bytealg.Count"] = func(g *G, fn *ssa.Function, a []Value) Value { return count(g, sliceOf(a[0]), a[1]) }
	eqB := func(g *G, fn *ssa.Function, a []Value) Value { return g.bytesEq(sliceOf(a[0]), sliceOf(a[1])) }
	I["internal/bytealg.Equal"] = eqB
	I["bytes.Equal"] = eqB
	cmp := func(g *G, x, y Value) Value {
		tc := g.p.w.tc
		lt, eq := g.strLt(x, y), g.strEq(x, y)
		return mkTerm(tc.Ite(eq.term(tc, 0), tc.Const(0, 64), tc.Ite(lt.term(tc, 0), tc.Const(^uint64(0), 64), tc.Const(1, 64))))
	}
	cmpB := func(g *G, fn *ssa.Function, a []Value) Value {
		return cmp(g, mkSymStr(sliceOf(a[0])), mkSymStr(sliceOf(a[1])))
	}
	I["internal/bytealg.Compare"] = cmpB
	I["bytes.Compare"] = cmpB
	cmpS := func(g *G, fn *ssa.Function, a []Value) Value { return cmp(g, a[0], a[1]) }
	I["strings.Compare"] = cmpS
	I["internal/bytealg.CompareString"] = cmpS
	I["internal/bytealg.MakeNoZero"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := g.concInt(a[0], kI64, "MakeNoZero")
		return mkSlice(make([]Value, n))
	}
	I["(*strings.Builder).copyCheck"] = func(g *G, fn *ssa.Function, a []Value) Value { return Value{} }
	I["internal/abi.NoEscape"] = func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }
	I["strings.Clone"] = I["internal/stringslite.Clone"]
	// concrete fast paths for string helpers (fall back to interpretation is impossible from an
	// intrinsic, so symbolic operands are handled byte-wise)
	I["strings.HasPrefix"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := strLen(a[1])
		if strLen(a[0]) < n {
			return mkBool(false)
		}
		return g.strEq(strSlice(a[0], 0, n), a[1])
	}
	I["strings.HasSuffix"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n, m := strLen(a[1]), strLen(a[0])
		if m < n {
			return mkBool(false)
		}
		return g.strEq(strSlice(a[0], m-n, m), a[1])
	}
	I["internal/stringslite.HasPrefix"] = I["strings.HasPrefix"]
	I["internal/stringslite.HasSuffix"] = I["strings.HasSuffix"]
	I["bytes.HasPrefix"] = func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := sliceOf(a[0]), sliceOf(a[1])
		if len(x) < len(y) {
			return mkBool(false)
		}
		return g.bytesEq(x[:len(y)], y)
	}
	I["bytes.HasSuffix"] = func(g *G, fn *ssa.Function, a []Value) Value {
		x, y := sliceOf(a[0]), sliceOf(a[1])
		if len(x) < len(y) {
			return mkBool(false)
		}
		return g.bytesEq(x[len(x)-len(y):], y)
	}
	I["common/util.StrToBytes"] = func(g *G, fn *ssa.Function, a []Value) Value {
		if strLen(a[0]) == 0 {
			return Value{}
		}
		return mkSlice(append([]Value(nil), strBytes(a[0])...))
	}
	I["common/util.BytesToStr"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkSymStr(append([]Value(nil), sliceOf(a[0])...))
	}

	// ---- math ----
	f1 := func(f func(float64) float64) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value { return mkF64(f(f64(a[0]))) }
	}
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Sqrt": math.Sqrt, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Abs": math.Abs, "Trunc": math.Trunc, "Round": math.Round, "Exp": math.Exp} {
		I["math."+n] = f1(f)
	}
	I["math.Pow"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkF64(math.Pow(f64(a[0]), f64(a[1]))) }
	I["math.Mod"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkF64(math.Mod(f64(a[0]), f64(a[1]))) }
	I["math.Max"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkF64(math.Max(f64(a[0]), f64(a[1]))) }
	I["math.Min"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkF64(math.Min(f64(a[0]), f64(a[1]))) }
	ident := func(g *G, fn *ssa.Function, a []Value) Value { return a[0] }
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		I["math."+n] = ident
	}

	// ---- time ----
	I["time.Now"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.timeNow() }
	I["time.runtimeNano"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkInt(uint64(g.p.clock)) }
	I["time.Since"] = func(g *G, fn *ssa.Function, a []Value) Value {
		f := g.p.ex.prog.method("time", "Time", "Sub")
		return g.call(f, []Value{g.timeNow(), a[0]}, nil, nil)
	}
	I["time.Until"] = func(g *G, fn *ssa.Function, a []Value) Value {
		f := g.p.ex.prog.method("time", "Time", "Sub")
		return g.call(f, []Value{a[0], g.timeNow()}, nil, nil)
	}
	I["time.Sleep"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.sleep(g.concInt(a[0], kI64, "sleep"))
		return Value{}
	}
	I["time.After"] = func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.p.newChan(1)
		g.p.addTimer(g.concInt(a[0], kI64, "after"), func(gg *G) { gg.release(c, 's'); c.buf = append(c.buf, gg.timeNow()); wakeRecv(c) })
		return Value{P: c}
	}
	mkTimer := func(g *G, fn *ssa.Function, d int64, fire func(c *ChanObj, t *vtimer) func(gg *G)) Value {
		tt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		cell := new(Value)
		*cell = zero(tt)
		c := g.p.newChan(1)
		cell.P.(*Agg).f[0] = Value{P: c}
		t := &vtimer{at: g.p.clock + max(d, 0), vc: g.stamp()}
		t.fire = fire(c, t)
		g.p.timers = append(g.p.timers, t)
		g.p.sync[cell] = t
		return Value{P: cell}
	}
	I["time.NewTimer"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkTimer(g, fn, g.concInt(a[0], kI64, "timer"), func(c *ChanObj, t *vtimer) func(*G) {
			return func(gg *G) { gg.release(c, 's'); c.buf = append(c.buf, gg.timeNow()); wakeRecv(c) }
		})
	}
	tick := func(d int64) func(c *ChanObj, t *vtimer) func(*G) {
		return func(c *ChanObj, t *vtimer) func(*G) {
			return func(gg *G) {
				if len(c.buf) == 0 {
					gg.release(c, 's')
					c.buf = append(c.buf, gg.timeNow())
					wakeRecv(c)
				}
				if t.period == 0 {
					t.period = max(d, 1)
				}
				t.at += t.period
				t.dead = false
			}
		}
	}
	I["time.NewTicker"] = func(g *G, fn *ssa.Function, a []Value) Value {
		d := g.concInt(a[0], kI64, "ticker")
		return mkTimer(g, fn, d, tick(d))
	}
	I["time.Tick"] = func(g *G, fn *ssa.Function, a []Value) Value {
		d := g.concInt(a[0], kI64, "tick")
		c := g.p.newChan(1)
		t := &vtimer{at: g.p.clock + d, vc: g.stamp()}
		t.fire = tick(d)(c, t)
		g.p.timers = append(g.p.timers, t)
		return Value{P: c}
	}
	I["time.AfterFunc"] = func(g *G, fn *ssa.Function, a []Value) Value {
		f := a[1]
		return mkTimer(g, fn, g.concInt(a[0], kI64, "afterfunc"), func(c *ChanObj, t *vtimer) func(*G) {
			return func(gg *G) { gg.spawnQuiet(f) }
		})
	}
	stop := func(g *G, fn *ssa.Function, a []Value) Value {
		if t, ok := g.p.sync[g.addrKey(a[0])].(*vtimer); ok {
			was := !t.dead
			t.dead = true
			return mkBool(was)
		}
		return mkBool(false)
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = func(g *G, fn *ssa.Function, a []Value) Value { stop(g, fn, a); return Value{} }
	timerReset := func(g *G, fn *ssa.Function, a []Value) Value {
		if t, ok := g.p.sync[g.addrKey(a[0])].(*vtimer); ok {
			was := !t.dead
			if t.dead {
				found := false
				for _, x := range g.p.timers {
					found = found || x == t
				}
				if !found {
					g.p.timers = append(g.p.timers, t)
				}
			}
			t.dead = false
			t.vc = g.stamp()
			t.at = g.p.clock + g.concInt(a[1], kI64, "reset")
			return mkBool(was)
		}
		return mkBool(false)
	}
	I["(*time.Timer).Reset"] = timerReset
	I["(*time.Ticker).Reset"] = func(g *G, fn *ssa.Function, a []Value) Value {
		timerReset(g, fn, a)
		if t, ok := g.p.sync[g.addrKey(a[0])].(*vtimer); ok {
			t.period = max(g.concInt(a[1], kI64, "reset"), 1)
		}
		return Value{}
	}

	// ---- math/rand ----
	randN := func(w uint8, argIdx int) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			n := a[argIdx]
			tc := g.p.w.tc
			t := n.term(tc, w)
			if g.p.branch(tc.Cmp(OpSLe, t, tc.Const(0, w))) {
				panic(targetPanic{Value{P: &Iface{T: types.Typ[types.String], V: mkStr("invalid argument to Intn")}}})
			}
			var r *Term
			if t.isConst() {
				r = g.p.newVar("rand", w, 0, sext(t.c, w)-1, true)
			} else {
				r = g.p.newVar("rand", w, 0, smax(w), true)
				g.p.assume(tc.Cmp(OpSLt, r, t))
			}
			return mkTerm(r)
		}
	}
	for _, r := range []string{"math/rand.", "math/rand/v2."} {
		I[r+"Intn"] = randN(64, 0)
		I[r+"IntN"] = randN(64, 0)
		I[r+"Int63n"] = randN(64, 0)
		I[r+"Int31n"] = randN(32, 0)
		I[r+"Int"] = func(g *G, fn *ssa.Function, a []Value) Value {
			return mkTerm(g.p.newVar("rand", 64, 0, smax(64), true))
		}
		I[r+"Int63"] = I[r+"Int"]
		I[r+"Float64"] = func(g *G, fn *ssa.Function, a []Value) Value {
			return mkF64(float64(g.p.concretize(g.p.newVar("randf", 64, 0, 3, true), "randf")) / 4)
		}
		I[r+"Seed"] = func(g *G, fn *ssa.Function, a []Value) Value { return Value{} }
	}
	I["(*math/rand.Rand).Intn"] = randN(64, 1)
	I["(*math/rand.Rand).Int63n"] = randN(64, 1)
	I["(*math/rand.Rand).Int31n"] = randN(32, 1)
	I["(*math/rand.Rand).Int"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return mkTerm(g.p.newVar("rand", 64, 0, smax(64), true))
	}
	I["(*math/rand.Rand).Int63"] = I["(*math/rand.Rand).Int"]
	I["math/rand.New"] = func(g *G, fn *ssa.Function, a []Value) Value { c := new(Value); return Value{P: c} }
	I["math/rand.NewSource"] = func(g *G, fn *ssa.Function, a []Value) Value { return Value{} }

	// ---- runtime ----
	nop := func(g *G, fn *ssa.Function, a []Value) Value { return zeroResult(fn) }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory", "runtime/debug.Stack", "runtime.Stack", "runtime.Caller", "runtime.Callers",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/godebug.New", "(*internal/godebug.Setting).Value", "(*internal/godebug.Setting).IncNonDefault", "internal/godebugs.All",
		"crypto/internal/fips140.getIndicator", "crypto/internal/fips140.setIndicator", "fmt.Print", "fmt.Println", "fmt.Printf", "syscall.runtime_envs", "os.runtime_args", "runtime.MemProfileRate"} {
		I[n] = nop
	}
	// distinct bytes; nothing may depend on what they are
	random := func(g *G, fn *ssa.Function, a []Value) Value {
		g.p.ids++
		for i, s := 0, sliceOf(a[0]); i < len(s); i++ {
			s[i] = Value{C: uint64(byte(g.p.ids>>(8*(i%8))) ^ byte(i*37+11))}
		}
		return zeroResult(fn)
	}
	I["crypto/internal/sysrand.Read"] = random
	I["crypto/internal/fips140/drbg.Read"] = random
	I["runtime.NumGoroutine"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, o := range g.p.gs {
			if o.state != gDone {
				n++
			}
		}
		return mkInt(uint64(n))
	}
	I["runtime.Gosched"] = func(g *G, fn *ssa.Function, a []Value) Value { g.yield(); return Value{} }
	I["runtime.NumCPU"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkInt(4) }
	I["runtime.GOMAXPROCS"] = I["runtime.NumCPU"]
	I["os.Exit"] = func(g *G, fn *ssa.Function, a []Value) Value { g.p.end("exit", "os.Exit"); return Value{} }
	I["os.Getpid"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkInt(4242) }
	I["os.Hostname"] = func(g *G, fn *ssa.Function, a []Value) Value { return Value{P: []Value{mkStr("host"), {}}} }

	// ---- errors ----
	I["errors.Is"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkBool(g.errorsIs(a[0], a[1])) }
	I["errors.As"] = func(g *G, fn *ssa.Function, a []Value) Value { return mkBool(g.errorsAs(a[0], a[1])) }

	// ---- sort ----
	sortSlice := func(g *G, fn *ssa.Function, a []Value) Value {
		i, ok := a[0].P.(*Iface)
		if !ok {
			return Value{}
		}
		s := sliceOf(i.V)
		for x := 1; x < len(s); x++ {
			for y := x; y > 0; y-- {
				if !g.truth(g.callValue(a[1], []Value{mkInt(uint64(y)), mkInt(uint64(y - 1))}, nil)) {
					break
				}
				p, q := copyVal(s[y]), copyVal(s[y-1])
				if g.p.race != nil && g.watching() {
					g.touchCell(&s[y], true)
					g.touchCell(&s[y-1], true)
				}
				storeTo(&s[y], q)
				storeTo(&s[y-1], p)
			}
		}
		return Value{}
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice

	// ---- fmt ----
	I["fmt.Sprintf"] = func(g *G, fn *ssa.Function, a []Value) Value { s, _ := g.sprintf(a[0], sliceOf(a[1])); return s }
	I["fmt.Sprint"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.sprint(sliceOf(a[0]), false) }
	I["fmt.Sprintln"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.sprint(sliceOf(a[0]), true) }
	I["fmt.Errorf"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.errorf(a[0], sliceOf(a[1])) }
	fpr := func(g *G, w Value, s Value) Value {
		i, ok := w.P.(*Iface)
		if !ok {
			g.nilDeref()
		}
		r := g.callMethod(i, "Write", mkSlice(append([]Value(nil), strBytes(s)...)))
		return r
	}
	I["fmt.Fprintf"] = func(g *G, fn *ssa.Function, a []Value) Value {
		s, _ := g.sprintf(a[1], sliceOf(a[2]))
		return fpr(g, a[0], s)
	}
	I["fmt.Fprint"] = func(g *G, fn *ssa.Function, a []Value) Value { return fpr(g, a[0], g.sprint(sliceOf(a[1]), false)) }
	I["fmt.Fprintln"] = func(g *G, fn *ssa.Function, a []Value) Value { return fpr(g, a[0], g.sprint(sliceOf(a[1]), true)) }

	// strconv on concrete arguments
	I["strconv.Itoa"] = func(g *G, fn *ssa.Function, a []Value) Value {
		if a[0].P == nil {
			return mkStr(strconv.FormatInt(sext(a[0].C, 64), 10))
		}
		return g.call(g.p.ex.prog.findFunc("strconv", "FormatInt"), []Value{a[0], mkInt(10)}, nil, nil)
	}
}

func wakeRecv(c *ChanObj) {
	for len(c.buf) > 0 {
		w := popWaiter(&c.recvq)
		if w == nil {
			return
		}
		v := c.buf[0]
		c.buf = c.buf[1:]
		w.g.acquire(c, 's')
		w.complete(v, true)
	}
}

func (p *Path) newChan(n int) *ChanObj {
	p.ids++
	return &ChanObj{cap: n, id: p.ids}
}

func (p *Path) addTimer(d int64, fire func(*G)) {
	p.timers = append(p.timers, &vtimer{at: p.clock + max(d, 0), fire: fire, vc: p.cur.stamp()})
}

func (g *G) spawnQuiet(f Value) {
	g.spawn(f, nil, nil)
}

func (g *G) truth(v Value) bool {
	if t := v.sym(); t != nil {
		return g.p.branch(t)
	}
	if v.P != nil {
		bad(v, "bool")
	}
	return v.C == 1
}

func (g *G) timeNow() Value {
	const unixToInternal = 62135596800
	sec := g.p.clock / 1_000_000_000
	ns := g.p.clock % 1_000_000_000
	g.p.clock += 1000
	return Value{P: &Agg{f: []Value{mkInt(uint64(ns)), mkInt(uint64(sec + unixToInternal)), {}}}}
}

func (pr *Program) method(pkg, typ, name string) *ssa.Function {
	t := pr.findType(pkg, typ)
	pr.mu.Lock()
	defer pr.mu.Unlock()
	for _, tt := range []types.Type{t, types.NewPointer(t)} {
		ms := pr.prog.MethodSets.MethodSet(tt)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return pr.prog.MethodValue(ms.At(i))
			}
		}
	}
	panic(unsupported{"no method " + name})
}

func (g *G) methodOf(t types.Type, name string) *ssa.Function {
	k := mkey{t, "·" + name}
	if f, ok := g.p.w.mcache[k]; ok {
		return f
	}
	pr := g.p.ex.prog
	pr.mu.Lock()
	defer pr.mu.Unlock()
	var f *ssa.Function
	ms := pr.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = pr.prog.MethodValue(ms.At(i))
		}
	}
	g.p.w.mcache[k] = f
	return f
}

func (g *G) callMethod(i *Iface, name string, args ...Value) Value {
	f := g.methodOf(i.T, name)
	if f == nil {
		panic(unsupported{"no method " + name + " on " + i.T.String()})
	}
	return g.call(f, append([]Value{i.V}, args...), nil, nil)
}

func comparable_(t types.Type) bool { return types.Comparable(t) }

func (g *G) errorsIs(err, target Value) bool {
	if err.P == nil || target.P == nil {
		return err.P == target.P
	}
	ti, ok := target.P.(*Iface)
	if !ok {
		bad(target, "errors.Is")
	}
	var is func(e Value) bool
	is = func(e Value) bool {
		i, ok := e.P.(*Iface)
		if !ok {
			if e.P == nil {
				return false
			}
			bad(e, "errors.Is")
		}
		if comparable_(ti.T) && g.p.w.identical(i.T, ti.T) {
			if g.truth(g.equals(i.T, i.V, ti.V)) {
				return true
			}
		}
		if f := g.methodOf(i.T, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if g.truth(g.call(f, []Value{i.V, target}, nil, nil)) {
				return true
			}
		}
		if f := g.methodOf(i.T, "Unwrap"); f != nil && f.Signature.Results().Len() == 1 {
			r := g.call(f, []Value{i.V}, nil, nil)
			if _, isS := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); isS {
				for _, x := range sliceOf(r) {
					if is(x) {
						return true
					}
				}
				return false
			}
			if r.P != nil {
				return is(r)
			}
		}
		return false
	}
	return is(err)
}

func (g *G) errorsAs(err, target Value) bool {
	ti, ok := target.P.(*Iface)
	if !ok {
		panic(targetPanic{Value{P: &Iface{T: types.Typ[types.String], V: mkStr("errors: target cannot be nil")}}})
	}
	et := ti.T.Underlying().(*types.Pointer).Elem()
	cell := ti.V.P.(*Value)
	var as func(e Value) bool
	as = func(e Value) bool {
		i, ok := e.P.(*Iface)
		if !ok {
			return false
		}
		if it, isI := et.Underlying().(*types.Interface); isI {
			if types.Implements(i.T, it) {
				storeTo(cell, e)
				return true
			}
		} else if g.p.w.identical(i.T, et) {
			storeTo(cell, i.V)
			return true
		}
		if f := g.methodOf(i.T, "Unwrap"); f != nil && f.Signature.Results().Len() == 1 {
			r := g.call(f, []Value{i.V}, nil, nil)
			if _, isS := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); isS {
				for _, x := range sliceOf(r) {
					if as(x) {
						return true
					}
				}
				return false
			}
			return as(r)
		}
		return false
	}
	return as(err)
}

func (g *G) idealHash(b []Value) string {
	for _, e := range g.p.tmpHash {
		if g.truth(g.bytesEq(e.b, b)) {
			return e.out
		}
	}
	out := fmt.Sprintf("h%063x", len(g.p.tmpHash)+1)
	g.p.tmpHash = append(g.p.tmpHash, hashEnt{append([]Value(nil), b...), out})
	return out
}

// ---- formatting ----

var kStr = kindInfo{k: kString}

func (g *G) fmtVal(v Value, t types.Type, verb byte, depth int) Value {
	if depth > 6 {
		return mkStr("...")
	}
	if _, ok := v.P.(*poison); ok {
		bad(v, "fmt")
	}
	if verb != 'd' && verb != 'x' && verb != 'p' && verb != 'T' && verb != 'c' {
		if _, isI := t.Underlying().(*types.Interface); !isI {
			if f := g.methodOf(t, "Error"); f != nil && f.Signature.Params().Len() == 0 {
				if isNilPtr(v, t) {
					return mkStr("<nil>")
				}
				return g.call(f, []Value{v}, nil, nil)
			}
			if f := g.methodOf(t, "String"); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if isNilPtr(v, t) {
					return mkStr("<nil>")
				}
				return g.call(f, []Value{v}, nil, nil)
			}
		}
	}
	k := kindOf(t)
	switch k.k {
	case kString:
		return v
	case kBool:
		if g.p.opaqueFmt > 0 && v.P != nil {
			return mkStr("?")
		}
		if g.truth(v) {
			return mkStr("true")
		}
		return mkStr("false")
	case kInt:
		if g.p.opaqueFmt > 0 && v.P != nil {
			return mkStr("?")
		}
		if verb == 'c' {
			return mkStr(string(rune(g.concInt(v, k, "%c"))))
		}
		if v.P == nil {
			if k.signed {
				return mkStr(strconv.FormatInt(sext(v.C, k.w), map[bool]int{true: 16, false: 10}[verb == 'x']))
			}
			return mkStr(strconv.FormatUint(v.C, map[bool]int{true: 16, false: 10}[verb == 'x']))
		}
		base := uint64(10)
		if verb == 'x' {
			base = 16
		}
		tc := g.p.w.tc
		if k.signed {
			return g.call(g.p.ex.prog.findFunc("strconv", "FormatInt"), []Value{mkTerm(tc.SExt(v.sym(), 64)), mkInt(base)}, nil, nil)
		}
		return g.call(g.p.ex.prog.findFunc("strconv", "FormatUint"), []Value{mkTerm(tc.ZExt(v.sym(), 64)), mkInt(base)}, nil, nil)
	case kFloat64:
		return mkStr(strconv.FormatFloat(f64(v), 'g', -1, 64))
	case kFloat32:
		return mkStr(strconv.FormatFloat(float64(f32(v)), 'g', -1, 32))
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		i, ok := v.P.(*Iface)
		if !ok {
			return mkStr("<nil>")
		}
		return g.fmtVal(i.V, i.T, verb, depth+1)
	case *types.Slice:
		if kindOf(u.Elem()).w == 8 && verb == 's' {
			return mkSymStr(append([]Value(nil), sliceOf(v)...))
		}
		out := mkStr("[")
		for i, x := range sliceOf(v) {
			if i > 0 {
				out = strConcat(out, mkStr(" "))
			}
			out = strConcat(out, g.fmtVal(x, u.Elem(), verb, depth+1))
		}
		return strConcat(out, mkStr("]"))
	case *types.Pointer:
		if v.P == nil {
			return mkStr("<nil>")
		}
		if s, ok := u.Elem().Underlying().(*types.Struct); ok && depth == 0 && verb == 'v' {
			_ = s
			c := v.P.(*Value)
			return strConcat(mkStr("&"), g.fmtVal(*c, u.Elem(), verb, depth+1))
		}
		return mkStr("0xc000000000")
	case *types.Struct:
		a := v.P.(*Agg)
		out := mkStr("{")
		for i := range a.f {
			if i > 0 {
				out = strConcat(out, mkStr(" "))
			}
			out = strConcat(out, g.fmtVal(a.f[i], u.Field(i).Type(), verb, depth+1))
		}
		return strConcat(out, mkStr("}"))
	}
	return mkStr("<" + types.TypeString(t, nil) + ">")
}

func isNilPtr(v Value, t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return v.P == nil
	}
	return false
}

func (g *G) sprint(args []Value, ln bool) Value {
	out := Value{}
	prevStr := false
	for i, a := range args {
		isS := false
		if x, ok := a.P.(*Iface); ok && kindOf(x.T).k == kString {
			isS = true
		}
		if i > 0 && (ln || (!isS && !prevStr)) {
			out = strConcat(out, mkStr(" "))
		}
		prevStr = isS
		if a.P == nil {
			out = strConcat(out, mkStr("<nil>"))
			continue
		}
		x := a.P.(*Iface)
		out = strConcat(out, g.fmtVal(x.V, x.T, 'v', 0))
	}
	if ln {
		out = strConcat(out, mkStr("\n"))
	}
	return out
}

func (g *G) sprintf(f Value, args []Value) (Value, []Value) {
	format := cstr(g, f)
	out := Value{}
	var wrapped []Value
	ai := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				out = strConcat(out, mkStr(format[i:]))
				break
			}
			out = strConcat(out, mkStr(format[i:i+j]))
			i += j - 1
			continue
		}
		i++
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		flags := format[st:i]
		if i >= len(format) {
			out = strConcat(out, mkStr("%!(NOVERB)"))
			break
		}
		v := format[i]
		if v == '%' {
			out = strConcat(out, mkStr("%"))
			continue
		}
		if ai >= len(args) {
			out = strConcat(out, mkStr("%!"+string(v)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		if a.P == nil {
			if v == 'v' || v == 's' && false {
				out = strConcat(out, mkStr("<nil>"))
			} else {
				out = strConcat(out, mkStr("%!"+string(v)+"(<nil>)"))
			}
			continue
		}
		x, ok := a.P.(*Iface)
		if !ok {
			bad(a, "sprintf")
		}
		var s Value
		switch v {
		case 'T':
			s = mkStr(types.TypeString(x.T, func(p *types.Package) string { return p.Name() }))
		case 'w':
			wrapped = append(wrapped, a)
			s = g.fmtVal(x.V, x.T, 'v', 0)
		case 'q':
			s = g.fmtVal(x.V, x.T, 's', 0)
			if c, ok := strConc(s); ok {
				s = mkStr(strconv.Quote(c))
			} else {
				s = strConcat(strConcat(mkStr("\""), s), mkStr("\""))
			}
		case 'f', 'g', 'e':
			if kk := kindOf(x.T); kk.k == kFloat64 {
				s = mkStr(fmt.Sprintf("%"+flags+string(v), f64(x.V)))
			} else if kk.k == kFloat32 {
				s = mkStr(fmt.Sprintf("%"+flags+string(v), f32(x.V)))
			} else {
				s = g.fmtVal(x.V, x.T, v, 0)
			}
			flags = ""
		case 'd', 'x', 'X', 'o', 'b':
			kk := kindOf(x.T)
			if kk.k == kInt && x.V.P == nil {
				if kk.signed {
					s = mkStr(fmt.Sprintf("%"+flags+string(v), sext(x.V.C, kk.w)))
				} else {
					s = mkStr(fmt.Sprintf("%"+flags+string(v), x.V.C))
				}
				flags = ""
			} else if b, isB := x.T.Underlying().(*types.Slice); isB && v == 'x' && kindOf(b.Elem()).w == 8 {
				bs, ok := concBytes(x.V)
				if !ok {
					panic(unsupported{"%x of symbolic bytes"})
				}
				s = mkStr(fmt.Sprintf("%x", bs))
			} else if kk.k == kString {
				if v == 'd' {
					s = strConcat(strConcat(mkStr("%!d(string="), x.V), mkStr(")"))
				} else {
					s = mkStr(fmt.Sprintf("%x", cstr(g, x.V)))
				}
			} else {
				if flags != "" && flags != "+" {
					panic(unsupported{"format flags on symbolic int"})
				}
				s = g.fmtVal(x.V, x.T, v, 0)
			}
		case 's':
			kk := kindOf(x.T)
			if kk.k == kInt && g.methodOf(x.T, "String") == nil && g.methodOf(x.T, "Error") == nil {
				s = strConcat(strConcat(mkStr("%!s("+types.TypeString(x.T, func(p *types.Package) string { return p.Name() })+"="), g.fmtVal(x.V, x.T, 'd', 0)), mkStr(")"))
			} else {
				s = g.fmtVal(x.V, x.T, 's', 0)
			}
		default:
			s = g.fmtVal(x.V, x.T, v, 0)
		}
		if w := strings.TrimLeft(flags, "+-# 0"); w != "" && w[0] != '.' {
			if n, err := strconv.Atoi(w); err == nil {
				for pad := n - strLen(s); pad > 0; pad-- {
					if strings.HasPrefix(flags, "-") {
						s = strConcat(s, mkStr(" "))
					} else {
						s = strConcat(mkStr(" "), s)
					}
				}
			}
		}
		out = strConcat(out, s)
	}
	if ai < len(args) {
		out = strConcat(out, mkStr("%!(EXTRA)"))
	}
	return out, wrapped
}

func (g *G) errorf(f Value, args []Value) Value {
	// symbolic numbers in error texts are opaque
	g.p.opaqueFmt++
	defer func() { g.p.opaqueFmt-- }()
	s, wrapped := g.sprintf(f, args)
	pr := g.p.ex.prog
	if len(wrapped) == 1 {
		if t := pr.findType("fmt", "wrapError"); t != nil {
			c := new(Value)
			*c = Value{P: &Agg{f: []Value{s, wrapped[0]}}}
			return Value{P: &Iface{T: pr.ptrTo(t), V: Value{P: c}}}
		}
	}
	if len(wrapped) > 1 {
		if t := pr.findType("fmt", "wrapErrors"); t != nil {
			c := new(Value)
			*c = Value{P: &Agg{f: []Value{s, mkSlice(wrapped)}}}
			return Value{P: &Iface{T: pr.ptrTo(t), V: Value{P: c}}}
		}
	}
	t := pr.findType("errors", "errorString")
	c := new(Value)
	*c = Value{P: &Agg{f: []Value{s}}}
	return Value{P: &Iface{T: pr.ptrTo(t), V: Value{P: c}}}
}

func (pr *Program) ptrTo(t types.Type) types.Type {
	if p, ok := pr.msets.Load(t); ok {
		return p.(types.Type)
	}
	p, _ := pr.msets.LoadOrStore(t, types.NewPointer(t))
	return p.(types.Type)
}
