package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type gState int

const (
	gRunnable gState = iota
	gBlocked
	gSleeping
	gDone
)

type G struct {
	p        *Path
	id       int
	wake     chan struct{}
	state    gState
	draining bool
	main     bool
	wakeAt   int64
	top      *frame
	depth    int
	why      string
	vc       vclock
}

type targetPanic struct{ v Value }

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.Defer
	call func()
}

type frame struct {
	g         *G
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []*deferred
	result    Value
	panicking bool
	panicVal  any
	caller    *frame
	ins       ssa.Instruction
	phiVals   []Value
	hasPhi    bool
}

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
	oFunc
)

type opref struct {
	k   opKind
	idx int
	v   Value
	g   *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	ops []opref
	aux any
	ki  kindInfo
	ki2 kindInfo
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks [][]cinstr
	intr   intrinsic
	hasDef bool
	idx    map[ssa.Value]int
	model  *ssa.Function
	noop   bool
	isRepo bool
	merge  map[*ssa.BasicBlock]*mergeInfo
	watch  int8
}

type Program struct {
	prog          *ssa.Program
	mu            sync.RWMutex
	infos         map[*ssa.Function]*fnInfo
	models        map[string]*ssa.Function
	repoPkg       map[string]bool
	errStrT       types.Type // runtime.errorString
	errT          types.Type
	hooks         map[string]bool
	msets         sync.Map
	nilConstructs sync.Map
}

func (pr *Program) isRepo(f *ssa.Function) bool {
	if f.Origin() != nil {
		f = f.Origin()
	}
	for f.Parent() != nil {
		f = f.Parent()
	}
	pkg := f.Pkg
	if pkg == nil {
		return false
	}
	if !pr.repoPkg[pkg.Pkg.Path()] {
		return false
	}
	pos := pr.prog.Fset.Position(f.Pos())
	return !isHarnessFile(pos.Filename)
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	pr.mu.RLock()
	fi := pr.infos[fn]
	pr.mu.RUnlock()
	if fi != nil {
		return fi
	}
	pr.mu.Lock()
	defer pr.mu.Unlock()
	if fi = pr.infos[fn]; fi != nil {
		return fi
	}
	fi = pr.compile(fn)
	pr.infos[fn] = fi
	return fi
}

func fnKey(fn *ssa.Function) string {
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (pr *Program) compile(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{fn: fn, isRepo: pr.isRepo(fn)}
	key := fnKey(fn)
	if m := pr.models[key]; m != nil && m != fn {
		fi.model = m
	}
	if in := lookupIntrinsic(key, fn); in != nil {
		fi.intr = in
		return fi
	}
	if isNoop(fn, key) {
		fi.noop = true
		return fi
	}
	if fn.Blocks == nil {
		return fi
	}
	idx := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) {
		idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDef = true
			}
		}
	}
	fi.nregs = n
	fi.idx = idx
	fi.blocks = make([][]cinstr, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cs := make([]cinstr, len(b.Instrs))
		for i, in := range b.Instrs {
			c := cinstr{ins: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = idx[v]
			}
			var rands [10]*ssa.Value
			for _, op := range in.Operands(rands[:0]) {
				var r opref
				if *op == nil {
					c.ops = append(c.ops, r)
					continue
				}
				switch v := (*op).(type) {
				case *ssa.Const:
					r = opref{k: oConst, v: constValue(v)}
				case *ssa.Global:
					r = opref{k: oGlobal, g: v}
				case *ssa.Function:
					r = opref{k: oFunc, v: Value{P: v}}
				case *ssa.Builtin:
					r = opref{k: oConst, v: Value{P: v}}
				default:
					j, ok := idx[*op]
					if !ok {
						panic(fmt.Sprintf("no register for %v in %v", *op, fn))
					}
					r = opref{k: oReg, idx: j}
				}
				c.ops = append(c.ops, r)
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				c.ki = kindOf(x.X.Type())
				c.ki2 = kindOf(x.Y.Type())
			case *ssa.UnOp:
				c.ki = kindOf(x.X.Type())
			case *ssa.Convert:
				c.ki = kindOf(x.X.Type())
				c.ki2 = kindOf(x.Type())
			case *ssa.IndexAddr:
				c.ki = kindOf(x.Index.Type())
				onlyLS := true
				var et types.Type
				switch t := x.X.Type().Underlying().(type) {
				case *types.Slice:
					et = t.Elem()
				case *types.Pointer:
					et = t.Elem().Underlying().(*types.Array).Elem()
				}
				k := kindOf(et).k
				if k != kInt && k != kBool {
					onlyLS = false
				}
				for _, r := range *x.Referrers() {
					switch u := r.(type) {
					case *ssa.UnOp:
						if u.Op != token.MUL {
							onlyLS = false
						}
					case *ssa.Store:
						if u.Addr != x {
							onlyLS = false
						}
					case *ssa.DebugRef:
					default:
						onlyLS = false
					}
				}
				c.aux = onlyLS
				c.ki2 = kindOf(et)
			case *ssa.Index:
				c.ki = kindOf(x.Index.Type())
				c.ki2 = kindOf(x.Type())
			case *ssa.Lookup:
				c.ki = kindOf(x.Index.Type())
			case *ssa.MakeSlice:
				c.ki = kindOf(x.Len.Type())
				c.ki2 = kindOf(x.Cap.Type())
			}
			cs[i] = c
		}
		fi.blocks[bi] = cs
	}
	fi.merge = findMerges(fn)
	return fi
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if _, ok := t.(*types.Basic); !ok {
		if _, isTP := t.(*types.Interface); isTP {
			panic(unsupported{"const of interface type"})
		}
	}
	k := kindOf(c.Type())
	switch k.k {
	case kBool:
		return mkBool(constant.BoolVal(c.Value))
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case kInt:
		v := constant.ToInt(c.Value)
		if k.signed {
			i, ok := constant.Int64Val(v)
			if !ok {
				u, _ := constant.Uint64Val(v)
				return mkInt(u & mask(k.w))
			}
			return mkInt(uint64(i) & mask(k.w))
		}
		u, ok := constant.Uint64Val(v)
		if !ok {
			i, _ := constant.Int64Val(v)
			u = uint64(i)
		}
		return mkInt(u & mask(k.w))
	case kFloat64:
		f, _ := constant.Float64Val(c.Value)
		return mkF64(f)
	case kFloat32:
		f, _ := constant.Float32Val(c.Value)
		return mkF32(f)
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{}
	}
	return Value{P: &poison{"const " + c.String()}}
}

func (g *G) stackTrace(n int) []string {
	var r []string
	for f := g.top; f != nil && len(r) < n; f = f.caller {
		s := f.fn.String()
		if f.ins != nil {
			pos := f.fn.Prog.Fset.Position(insPos(f))
			if pos.IsValid() {
				s += fmt.Sprintf("(%s:%d)", shortFile(pos.Filename), pos.Line)
			}
		}
		r = append(r, s)
	}
	return r
}

func insPos(f *frame) token.Pos {
	p := f.ins.Pos()
	if p.IsValid() {
		return p
	}
	// nearest preceding instruction with a position
	b := f.ins.Block()
	if b == nil {
		return p
	}
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			p = in.Pos()
		}
		if in == f.ins {
			break
		}
	}
	return p
}

func (fr *frame) get(o *opref) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.idx]
	case oConst:
		return o.v
	case oGlobal:
		return Value{P: fr.g.globalAddr(o.g)}
	}
	return o.v
}

func (g *G) globalAddr(gl *ssa.Global) *Value {
	p := g.p
	path := gl.Pkg.Pkg.Path()
	if !p.ex.prog.repoPkg[path] {
		w := p.w
		if !w.shInit[gl.Pkg] {
			w.shInit[gl.Pkg] = true
			for _, m := range gl.Pkg.Members {
				if gg, ok := m.(*ssa.Global); ok {
					c := new(Value)
					*c = zero(gg.Type().(*types.Pointer).Elem())
					w.shared[gg] = c
				}
			}
			g.runInit(gl.Pkg)
		}
		return w.shared[gl]
	}
	if c := p.globals[gl]; c != nil && (p.initDone[gl.Pkg]) {
		return c
	}
	if !p.initDone[gl.Pkg] {
		p.initDone[gl.Pkg] = true
		for _, m := range gl.Pkg.Members {
			if gg, ok := m.(*ssa.Global); ok {
				c := new(Value)
				*c = zero(gg.Type().(*types.Pointer).Elem())
				p.globals[gg] = c
			}
		}
		g.runInit(gl.Pkg)
	}
	return p.globals[gl]
}

// initDebug reports what an initialiser could not do.
var initDebug = os.Getenv("GOSYM_INITDEBUG") != ""

// runInit runs the package initialiser; initialisers of imports run lazily when their globals are read.
func (g *G) runInit(pkg *ssa.Package) {
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	p := g.p
	saveSpec, saveMerge := p.spec, p.mergeOff
	p.spec, p.mergeOff = 0, true
	defer func() { p.spec, p.mergeOff = saveSpec, saveMerge }()
	p.inInit++
	saveSched := p.schedMode
	p.schedMode = false
	defer func() { p.inInit--; p.schedMode = saveSched }()
	st := p.steps
	fi := p.ex.prog.info(fn)
	if len(fi.blocks) == 0 {
		return
	}
	fr := &frame{g: g, fn: fn, info: fi, regs: make([]Value, fi.nregs), caller: g.top}
	fr.block = fn.Blocks[0]
	// the init guard is a global "init$guard" of this package, false at this point
	for fr.block != nil {
		g.runInitFrame(fr)
	}
	if initDebug {
		fmt.Fprintln(os.Stderr, "init of", pkg.Pkg.Path(), "done", len(fn.Blocks))
	}
	g.top = fr.caller
	p.steps = st
}

func (g *G) runInitFrame(fr *frame) {
	for {
		b := fr.block
		cs := fr.info.blocks[b.Index]
		next := false
		for i := range cs {
			c := &cs[i]
			if call, ok := c.ins.(*ssa.Call); ok {
				if sf := call.Call.StaticCallee(); sf != nil && sf.Name() == "init" && sf.Pkg != fr.fn.Pkg && sf.Signature.Recv() == nil {
					continue
				}
			}
			var ct ctl
			func() {
				saved := g.top
				sd := g.depth
				defer func() {
					if r := recover(); r != nil {
						why := ""
						switch e := r.(type) {
						case unsupported:
							why = e.msg
						case targetPanic:
							why = "panic in init: " + g.p.panicString(e.v)
						default:
							panic(r)
						}
						if initDebug {
							fmt.Fprintln(os.Stderr, "init of", fr.fn.Pkg.Pkg.Path(), c.ins, ":", why)
						}
						g.top = saved
						g.depth = sd
						if c.dst >= 0 {
							fr.regs[c.dst] = Value{P: &poison{"init: " + why}}
						}
						switch c.ins.(type) {
						case *ssa.If, *ssa.Jump, *ssa.Return:
							ct = ctlReturn
							fr.block = nil
						default:
							ct = ctlNext
						}
					}
				}()
				g.top = fr
				ct = g.step(fr, c)
			}()
			if ct == ctlJump {
				next = true
				break
			}
			if ct == ctlReturn {
				fr.block = nil
				return
			}
		}
		if !next {
			return
		}
	}
}

type ctl int

const (
	ctlNext ctl = iota
	ctlJump
	ctlReturn
)

const maxDepth = 2000

func (g *G) call(fn *ssa.Function, args []Value, env []Value, site ssa.Instruction) Value {
	p := g.p
	if p.dead {
		panic(pathEnd{"dead", ""})
	}
	fi := p.ex.prog.info(fn)
	if fi.model != nil && (g.top == nil || g.top.fn != fi.model) {
		return g.call(fi.model, args, nil, site)
	}
	if fi.intr != nil {
		return fi.intr(g, fn, args)
	}
	if fi.noop {
		return noopResult(g, fn)
	}
	if fn.Blocks == nil {
		panic(unsupported{"external function " + fn.String()})
	}
	if fi.isRepo && !p.w.funcs[fn] {
		p.w.funcs[fn] = true
	}
	if g.depth > maxDepth {
		panic(unsupported{"call depth"})
	}
	fr := &frame{g: g, fn: fn, info: fi, regs: make([]Value, fi.nregs), caller: g.top}
	n := copy(fr.regs, args)
	if n != len(fn.Params) {
		panic(unsupported{fmt.Sprintf("arity %s: %d args for %d params", fn, len(args), len(fn.Params))})
	}
	copy(fr.regs[n:], env)
	fr.block = fn.Blocks[0]
	g.top = fr
	g.depth++
	if fi.hasDef {
		for fr.block != nil {
			g.runDeferFrame(fr)
		}
	} else {
		g.runFrame(fr)
	}
	g.depth--
	g.top = fr.caller
	return fr.result
}

func (g *G) runDeferFrame(fr *frame) {
	depth := g.depth
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		g.top = fr
		g.depth = depth
		fr.panicking = true
		fr.panicVal = tp
		g.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil { // no named results: return zero values
			fr.result = zeroResult(fr.fn)
		}
	}()
	g.runFrame(fr)
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return Value{}
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (g *G) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		g.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (g *G) runDefer(fr *frame, d *deferred) {
	ok := false
	depth := g.depth
	defer func() {
		if !ok {
			r := recover()
			tp, isT := r.(targetPanic)
			if !isT {
				panic(r)
			}
			g.top = fr
			g.depth = depth
			fr.panicking = true
			fr.panicVal = tp
		}
	}()
	g.callValue(d.fn, d.args, d.ins)
	ok = true
}

func (g *G) runFrame(fr *frame) {
	p := g.p
	for {
		b := fr.block
		cs := fr.info.blocks[b.Index]
		p.steps += int64(len(cs))
		if p.steps > p.stepLimit {
			g.stepsExceeded()
		}
		// phis in parallel
		i := 0
		if fr.hasPhi {
			for ; i < len(fr.phiVals); i++ {
				fr.regs[cs[i].dst] = fr.phiVals[i]
			}
			fr.hasPhi = false
		} else if len(b.Preds) > 0 {
			var tmp [8]Value
			vals := tmp[:0]
			pi := -1
			for ; i < len(cs); i++ {
				if _, ok := cs[i].ins.(*ssa.Phi); !ok {
					break
				}
				if pi < 0 {
					for k, pr := range b.Preds {
						if pr == fr.prev {
							pi = k
							break
						}
					}
				}
				vals = append(vals, fr.get(&cs[i].ops[pi]))
			}
			for k := range vals {
				fr.regs[cs[k].dst] = vals[k]
			}
		}
		jumped := false
		for ; i < len(cs); i++ {
			switch g.step(fr, &cs[i]) {
			case ctlNext:
				continue
			case ctlJump:
				jumped = true
			case ctlReturn:
				fr.block = nil
				return
			}
			break
		}
		if !jumped {
			panic(unsupported{"fell off block"})
		}
	}
}

func (g *G) stepsExceeded() {
	p := g.p
	if p.fsteps != nil { // Terminates mode
		p.violation("steps", "step bound exceeded (possible non-termination)", p.w.tc.tTrue, g)
		p.end("violation", "steps")
	}
	p.end("limit", "step limit @ "+fmt.Sprint(g.stackTrace(3)))
}

func (g *G) step(fr *frame, c *cinstr) ctl {
	fr.ins = c.ins
	switch in := c.ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		addr := new(Value)
		*addr = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[c.dst] = Value{P: addr}
	case *ssa.UnOp:
		fr.regs[c.dst] = g.unop(fr, in, c)
	case *ssa.BinOp:
		fr.regs[c.dst] = g.binop(in.Op, in.X.Type(), c.ki, c.ki2, fr.get(&c.ops[0]), fr.get(&c.ops[1]))
	case *ssa.Call:
		fr.regs[c.dst] = g.doCall(fr, &in.Call, c, in)
	case *ssa.ChangeInterface:
		fr.regs[c.dst] = fr.get(&c.ops[0])
	case *ssa.ChangeType:
		fr.regs[c.dst] = fr.get(&c.ops[0])
	case *ssa.Convert:
		fr.regs[c.dst] = g.convert(in.X.Type(), in.Type(), c.ki, c.ki2, fr.get(&c.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[c.dst] = g.convert(in.X.Type(), in.Type(), kindOf(in.X.Type()), kindOf(in.Type()), fr.get(&c.ops[0]))
	case *ssa.SliceToArrayPointer:
		v := fr.get(&c.ops[0])
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		a := sliceOf(v)
		if int64(len(a)) < n {
			g.rtPanic("cannot convert slice to array pointer")
		}
		cell := new(Value)
		*cell = Value{P: &Agg{f: a[:n:n]}}
		fr.regs[c.dst] = Value{P: cell}
	case *ssa.MakeInterface:
		fr.regs[c.dst] = Value{P: &Iface{T: in.X.Type(), V: copyVal(fr.get(&c.ops[0]))}}
	case *ssa.Extract:
		t := fr.get(&c.ops[0])
		tv, ok := t.P.([]Value)
		if !ok {
			bad(t, "extract")
		}
		fr.regs[c.dst] = tv[in.Index]
	case *ssa.Slice:
		fr.regs[c.dst] = g.slice(fr, in, c)
	case *ssa.Return:
		switch len(c.ops) {
		case 0:
		case 1:
			fr.result = fr.get(&c.ops[0])
		default:
			r := make([]Value, len(c.ops))
			for i := range c.ops {
				r[i] = fr.get(&c.ops[i])
			}
			fr.result = Value{P: r}
		}
		return ctlReturn
	case *ssa.RunDefers:
		g.runDefers(fr)
	case *ssa.Panic:
		v := fr.get(&c.ops[0])
		if v.P == nil {
			g.rtPanic("panic called with nil argument")
		}
		panic(targetPanic{v})
	case *ssa.Send:
		g.chanSend(fr.get(&c.ops[0]), copyVal(fr.get(&c.ops[1])))
	case *ssa.Store:
		g.store(fr.get(&c.ops[0]), fr.get(&c.ops[1]), in)
	case *ssa.If:
		cond := fr.get(&c.ops[0])
		var t bool
		if s, ok := cond.P.(*Term); ok {
			if g.p.tryMerge(fr, s) {
				return ctlJump
			}
			t = g.p.branch(s)
		} else if cond.P != nil {
			bad(cond, "if")
		} else {
			t = cond.C == 1
		}
		fr.prev = fr.block
		if t {
			fr.block = fr.block.Succs[0]
		} else {
			fr.block = fr.block.Succs[1]
		}
		return ctlJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return ctlJump
	case *ssa.Defer:
		if in.DeferStack != nil {
			panic(unsupported{"defer in a range-over-func body"})
		}
		fn, args := g.prepCall(fr, &in.Call, c)
		fr.defers = append(fr.defers, &deferred{fn: fn, args: args, ins: in})
	case *ssa.Go:
		fn, args := g.prepCall(fr, &in.Call, c)
		g.spawn(fn, args, in)
	case *ssa.MakeChan:
		n := g.concInt(fr.get(&c.ops[0]), kindOf(in.Size.Type()), "chan size")
		g.p.ids++
		fr.regs[c.dst] = Value{P: &ChanObj{cap: int(n), id: g.p.ids}}
	case *ssa.MakeSlice:
		fr.regs[c.dst] = g.makeSlice(in, c, fr)
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.regs[c.dst] = Value{P: newMap(mt)}
	case *ssa.MakeClosure:
		env := make([]Value, len(c.ops)-1)
		for i := range env {
			env[i] = fr.get(&c.ops[i+1])
		}
		fr.regs[c.dst] = Value{P: &Closure{fn: in.Fn.(*ssa.Function), env: env}}
	case *ssa.FieldAddr:
		v := fr.get(&c.ops[0])
		a, ok := v.P.(*Value)
		if !ok {
			if v.P == nil {
				g.nilDeref()
			}
			bad(v, "fieldaddr")
		}
		ag, ok := a.P.(*Agg)
		if !ok {
			bad(*a, "fieldaddr agg "+in.String())
		}
		fr.regs[c.dst] = Value{P: &ag.f[in.Field]}
	case *ssa.Field:
		v := fr.get(&c.ops[0])
		ag, ok := v.P.(*Agg)
		if !ok {
			bad(v, "field")
		}
		fr.regs[c.dst] = ag.f[in.Field]
	case *ssa.IndexAddr:
		fr.regs[c.dst] = g.indexAddr(fr, in, c)
	case *ssa.Index:
		fr.regs[c.dst] = g.index(fr, in, c)
	case *ssa.Lookup:
		fr.regs[c.dst] = g.lookup(fr, in, c)
	case *ssa.MapUpdate:
		m := fr.get(&c.ops[0])
		mo, ok := m.P.(*MapObj)
		if !ok {
			if m.P == nil {
				g.rtPanicRaw("assignment to entry in nil map")
			}
			bad(m, "mapupdate")
		}
		if g.p.race != nil && g.watching() {
			g.touch(mo, true)
		}
		g.mapSet(mo, copyVal(fr.get(&c.ops[1])), copyVal(fr.get(&c.ops[2])))
	case *ssa.TypeAssert:
		fr.regs[c.dst] = g.typeAssert(in, fr.get(&c.ops[0]))
	case *ssa.Range:
		fr.regs[c.dst] = g.rangeIter(fr.get(&c.ops[0]), in)
	case *ssa.Next:
		fr.regs[c.dst] = g.next(fr.get(&c.ops[0]), in)
	case *ssa.Select:
		fr.regs[c.dst] = g.selectStmt(fr, in, c)
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return ctlNext
}

func (g *G) nilDeref() {
	g.rtPanic("invalid memory address or nil pointer dereference")
}

// rtPanic raises a runtime error panic.
func (g *G) rtPanic(msg string) {
	t := g.p.ex.prog.errStrT
	if t == nil {
		panic(targetPanic{Value{P: &Iface{T: types.Typ[types.String], V: mkStr("runtime error: " + msg)}}})
	}
	panic(targetPanic{Value{P: &Iface{T: t, V: mkStr(msg)}}})
}
func (g *G) rtPanicRaw(msg string) { g.rtPanic(msg) }

func (p *Path) panicString(v Value) string {
	i, ok := v.P.(*Iface)
	if !ok {
		return "?"
	}
	if s, ok := strConc(i.V); ok && i.V.P != nil {
		return fmt.Sprintf("%v(%s)", types.TypeString(i.T, nil), s)
	}
	if c, ok := i.V.P.(*Value); ok {
		if a, ok := c.P.(*Agg); ok && len(a.f) > 0 {
			if s, ok := strConc(a.f[0]); ok {
				return fmt.Sprintf("%v(%s)", types.TypeString(i.T, nil), s)
			}
		}
	}
	return types.TypeString(i.T, nil)
}

func (g *G) load(addr Value, t types.Type) Value {
	switch a := addr.P.(type) {
	case *Value:
		if g.p.race != nil && g.watching() {
			g.touchCell(a, false)
		}
		v := *a
		switch v.P.(type) {
		case *Agg:
			return copyVal(v)
		case string, *SymStr:
			if _, ok := t.Underlying().(*types.Slice); ok {
				return mkSlice(strBytes(v))
			}
		case *SliceV:
			if k := kindOf(t); k.k == kString {
				return mkSymStr(append([]Value(nil), sliceOf(v)...))
			}
		}
		return v
	case *SymPtr:
		return g.symLoad(a.a, a.idx, kindOf(t))
	case nil:
		g.nilDeref()
	}
	bad(addr, "load")
	return Value{}
}

func (g *G) symLoad(a []Value, idx *Term, k kindInfo) Value {
	tc := g.p.w.tc
	w := k.width()
	lo, hi := 0, len(a)-1
	if idx.lo > 0 {
		lo = int(idx.lo)
	}
	if idx.hi < int64(hi) && idx.hi >= 0 {
		hi = int(idx.hi)
	}
	if len(a) == 256 && w == 8 && idx.op == OpZExt && idx.a[0].w == 8 {
		tab := make([]uint64, 0, 256)
		for _, v := range a {
			t := v.term(tc, w)
			if !t.isConst() {
				break
			}
			tab = append(tab, t.c)
		}
		if m, ok := gfTable(tab); ok {
			return mkTerm(tc.GF(m, idx.a[0]))
		}
	}
	r := a[hi].term(tc, w)
	for i := hi - 1; i >= lo; i-- {
		r = tc.Ite(tc.Eq(idx, tc.Const(uint64(i), idx.w)), a[i].term(tc, w), r)
	}
	return mkTerm(r)
}

func (g *G) store(addr, v Value, in *ssa.Store) {
	switch a := addr.P.(type) {
	case *Value:
		if g.p.race != nil && g.watching() {
			g.touchCell(a, true)
		}
		storeTo(a, v)
		return
	case *SymPtr:
		tc := g.p.w.tc
		k := kindOf(in.Val.Type())
		w := k.width()
		for i := range a.a {
			a.a[i] = mkTerm(tc.Ite(tc.Eq(a.idx, tc.Const(uint64(i), a.idx.w)), v.term(tc, w), a.a[i].term(tc, w)))
		}
		return
	case nil:
		g.nilDeref()
	}
	bad(addr, "store")
}

// concInt returns a concrete int64, forking if symbolic.
func (g *G) concInt(v Value, k kindInfo, what string) int64 {
	if t := v.sym(); t != nil {
		c := g.p.concretize(t, what)
		if k.signed {
			return sext(c, k.w)
		}
		return int64(c)
	}
	if v.P != nil {
		bad(v, what)
	}
	if k.signed {
		return sext(v.C, k.w)
	}
	return int64(v.C)
}

// asTerm64 extends an integer to a signed 64-bit term.
func (g *G) asTerm64(v Value, k kindInfo) *Term {
	tc := g.p.w.tc
	t := v.term(tc, k.w)
	if k.signed {
		return tc.SExt(t, 64)
	}
	return tc.ZExt(t, 64)
}

// checkIndex validates idx in [0,n) (forking to a panic if it may be out of range).
func (g *G) checkIndex(v Value, k kindInfo, n int) (int, *Term) {
	if v.P == nil {
		i := sext(v.C, k.w)
		if !k.signed {
			i = int64(v.C)
		}
		if i < 0 || i >= int64(n) {
			g.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	if v.sym() == nil {
		bad(v, "index")
	}
	t := g.asTerm64(v, k)
	tc := g.p.w.tc
	ok := tc.And(tc.Cmp(OpSLe, tc.Const(0, 64), t), tc.Cmp(OpSLt, t, tc.Const(uint64(n), 64)))
	if !g.p.branch(ok) {
		g.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
	if t.isConst() {
		return int(t.c), nil
	}
	return 0, t
}

func (g *G) indexAddr(fr *frame, in *ssa.IndexAddr, c *cinstr) Value {
	x := fr.get(&c.ops[0])
	var a []Value
	switch v := x.P.(type) {
	case *SliceV:
		a = v.a
	case *Value:
		ag, ok := v.P.(*Agg)
		if !ok {
			bad(*v, "indexaddr array")
		}
		a = ag.f
	case nil:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			g.nilDeref()
		}
	case string, *SymStr:
		a = strBytes(x)
	default:
		bad(x, "indexaddr")
	}
	i, t := g.checkIndex(fr.get(&c.ops[1]), c.ki, len(a))
	if t != nil {
		if c.aux.(bool) && len(a) <= 1024 {
			conc := true
			_ = conc
			return Value{P: &SymPtr{a: a, idx: t}}
		}
		i = int(g.p.concretize(t, "index"))
	}
	return Value{P: &a[i]}
}

func (g *G) index(fr *frame, in *ssa.Index, c *cinstr) Value {
	x := fr.get(&c.ops[0])
	var a []Value
	switch v := x.P.(type) {
	case *Agg:
		a = v.f
	case string:
		iv := fr.get(&c.ops[1])
		i, t := g.checkIndex(iv, c.ki, len(v))
		if t == nil {
			return Value{C: uint64(v[i])}
		}
		return g.symLoad(strBytes(x), t, kindInfo{8, false, kInt})
	case *SymStr:
		a = v.b
	case nil:
	default:
		bad(x, "index")
	}
	i, t := g.checkIndex(fr.get(&c.ops[1]), c.ki, len(a))
	if t != nil {
		if (c.ki2.k == kInt || c.ki2.k == kBool) && len(a) <= 1024 {
			return g.symLoad(a, t, c.ki2)
		}
		i = int(g.p.concretize(t, "index"))
	}
	return a[i]
}

func (g *G) makeSlice(in *ssa.MakeSlice, c *cinstr, fr *frame) Value {
	n := g.concInt(fr.get(&c.ops[0]), c.ki, "makeslice len")
	cp := g.concInt(fr.get(&c.ops[1]), c.ki2, "makeslice cap")
	if n < 0 || n > 1<<40 {
		g.rtPanic("makeslice: len out of range")
	}
	if cp < n || cp > 1<<40 {
		g.rtPanic("makeslice: cap out of range")
	}
	if cp > 1<<24 {
		panic(unsupported{fmt.Sprintf("makeslice cap %d", cp)})
	}
	a := make([]Value, cp)
	et := in.Type().Underlying().(*types.Slice).Elem()
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range a {
			a[i] = zero(et)
		}
	}
	return mkSlice(a[:n])
}

func (g *G) slice(fr *frame, in *ssa.Slice, c *cinstr) Value {
	x := fr.get(&c.ops[0])
	var lo, hi, mx int64 = 0, -1, -1
	if in.Low != nil {
		lo = g.concInt(fr.get(&c.ops[1]), kindOf(in.Low.Type()), "slice low")
	}
	if in.High != nil {
		hi = g.concInt(fr.get(&c.ops[2]), kindOf(in.High.Type()), "slice high")
	}
	if in.Max != nil {
		mx = g.concInt(fr.get(&c.ops[3]), kindOf(in.Max.Type()), "slice max")
	}
	if isStringType(in.X.Type()) {
		n := int64(strLen(x))
		if in.High == nil {
			hi = n
		}
		if hi < 0 || hi > n {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return strSlice(x, int(lo), int(hi))
	}
	var a []Value
	isNil := false
	switch v := x.P.(type) {
	case *SliceV:
		a = v.a
	case *Value:
		ag, ok := v.P.(*Agg)
		if !ok {
			bad(*v, "slice array")
		}
		a = ag.f
	case nil:
		if _, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			g.nilDeref()
		}
		isNil = true
	case string, *SymStr:
		a = strBytes(x)
	default:
		bad(x, "slice")
	}
	cp := int64(cap(a))
	if in.Max == nil {
		mx = cp
	} else if mx < 0 || mx > cp {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", mx, cp))
	}
	if in.High == nil {
		hi = int64(len(a))
	}
	if hi < 0 || hi > mx {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", hi, cp))
	}
	if lo < 0 || lo > hi {
		g.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
	}
	if isNil {
		return Value{}
	}
	return mkSlice(a[lo:hi:mx])
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- maps ----

func newMap(mt *types.Map) *MapObj {
	return &MapObj{idx: map[string]*mapEnt{}, elem: mt.Elem(), key: mt.Key()}
}

func (g *G) mapFind(m *MapObj, k Value) *mapEnt {
	if m.live == 0 {
		return nil
	}
	ck, ok := concKey(k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if ok {
			if _, c := concKey(e.k); c {
				continue
			}
		}
		eq := g.equals(m.key, e.k, k)
		if t := eq.sym(); t != nil {
			if g.p.branch(t) {
				return e
			}
		} else if eq.C == 1 {
			return e
		}
	}
	return nil
}

func (g *G) mapSet(m *MapObj, k, v Value) {
	if i, ok := k.P.(*Iface); ok {
		g.checkHashable(i.T)
	}
	if e := g.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	if ck, ok := concKey(k); ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (g *G) checkHashable(t types.Type) {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Signature:
		g.rtPanic("hash of unhashable type " + t.String())
	}
}

func (g *G) mapDelete(m *MapObj, k Value) {
	e := g.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.live--
	if ck, ok := concKey(e.k); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.live*2 < len(m.ents) {
		var n []*mapEnt
		for _, x := range m.ents {
			if !x.dead {
				n = append(n, x)
			}
		}
		m.ents = n
	}
}

func (g *G) lookup(fr *frame, in *ssa.Lookup, c *cinstr) Value {
	x := fr.get(&c.ops[0])
	k := fr.get(&c.ops[1])
	if isStringType(in.X.Type()) {
		b := strBytes(x)
		i, t := g.checkIndex(k, c.ki, len(b))
		if t != nil {
			return g.symLoad(b, t, kindInfo{8, false, kInt})
		}
		return b[i]
	}
	mt := in.X.Type().Underlying().(*types.Map)
	var v Value
	found := false
	if x.P != nil {
		m, ok := x.P.(*MapObj)
		if !ok {
			bad(x, "lookup")
		}
		if g.p.race != nil && g.watching() {
			g.touch(m, false)
		}
		if i, ok := k.P.(*Iface); ok {
			g.checkHashable(i.T)
		}
		if e := g.mapFind(m, k); e != nil {
			v = copyVal(e.v)
			found = true
		}
	}
	if !found {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return Value{P: []Value{v, mkBool(found)}}
	}
	return v
}

func (g *G) rangeIter(x Value, in *ssa.Range) Value {
	if isStringType(in.X.Type()) {
		return Value{P: &strIter{s: x}}
	}
	it := &mapIter{}
	if x.P != nil {
		m, ok := x.P.(*MapObj)
		if !ok {
			bad(x, "range")
		}
		if g.p.race != nil && g.watching() {
			g.touch(m, false)
		}
		it.m = m
		for _, e := range m.ents {
			if !e.dead {
				it.keys = append(it.keys, e)
			}
		}
		if g.p.mapOrder && len(it.keys) > 1 {
			// symbolic iteration order
			n := len(it.keys)
			for i := 0; i < n-1; i++ {
				j := i + g.p.choose(n-i, "maporder")
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	return Value{P: it}
}

func (g *G) next(x Value, in *ssa.Next) Value {
	switch it := x.P.(type) {
	case *mapIter:
		if g.p.race != nil && it.m != nil && g.watching() {
			g.touch(it.m, false)
		}
		for it.pos < len(it.keys) {
			e := it.keys[it.pos]
			it.pos++
			if e.dead {
				continue
			}
			return Value{P: []Value{mkBool(true), copyVal(e.k), copyVal(e.v)}}
		}
		return Value{P: []Value{mkBool(false), {}, {}}}
	case *strIter:
		n := strLen(it.s)
		if it.pos >= n {
			return Value{P: []Value{mkBool(false), {}, {}}}
		}
		p := it.pos
		b := strAt(it.s, p)
		if b.P == nil && b.C < 0x80 {
			it.pos++
			return Value{P: []Value{mkBool(true), mkInt(uint64(p)), mkInt(b.C)}}
		}
		if t := b.sym(); t != nil {
			tc := g.p.w.tc
			if g.p.branch(tc.Cmp(OpULt, t, tc.Const(0x80, 8))) {
				it.pos++
				return Value{P: []Value{mkBool(true), mkInt(uint64(p)), mkTerm(tc.ZExt(t, 32))}}
			}
		}
		fn := g.p.ex.prog.findFunc("unicode/utf8", "DecodeRuneInString")
		r := g.call(fn, []Value{strSlice(it.s, p, n)}, nil, nil).P.([]Value)
		it.pos += int(g.concInt(r[1], kindInfo{64, true, kInt}, "rune size"))
		return Value{P: []Value{mkBool(true), mkInt(uint64(p)), r[0]}}
	}
	bad(x, "next")
	return Value{}
}

// ---- type assertions, equality ----

type mkey struct {
	t types.Type
	m string
}
type tpair struct{ a, b types.Type }

func (w *Worker) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	k := tpair{a, b}
	if r, ok := w.tcache[k]; ok {
		return r
	}
	r := types.Identical(a, b)
	w.tcache[k] = r
	return r
}

func (g *G) typeAssert(in *ssa.TypeAssert, x Value) Value {
	i, _ := x.P.(*Iface)
	if i == nil && x.P != nil {
		bad(x, "typeassert")
	}
	ok := false
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if i != nil {
			k := tpair{i.T, in.AssertedType}
			r, have := g.p.w.tcache[k]
			if !have {
				r = types.Implements(i.T, it)
				g.p.w.tcache[k] = r
			}
			ok = r
		}
		if ok {
			v = x
		}
	} else {
		if i != nil && g.p.w.identical(i.T, in.AssertedType) {
			ok = true
			v = copyVal(i.V)
		}
	}
	if !ok {
		if !in.CommaOk {
			if i == nil {
				g.rtPanic("interface conversion: interface is nil, not " + in.AssertedType.String())
			}
			g.rtPanic("interface conversion: interface is " + i.T.String() + ", not " + in.AssertedType.String())
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Value{P: []Value{v, mkBool(ok)}}
	}
	return v
}

func (g *G) strEq(a, b Value) Value {
	if sa, ok := a.P.(string); ok {
		if sb, ok := b.P.(string); ok {
			return mkBool(sa == sb)
		}
	}
	if strLen(a) != strLen(b) {
		return mkBool(false)
	}
	x, y := strBytes(a), strBytes(b)
	return g.bytesEq(x, y)
}

func (g *G) bytesEq(x, y []Value) Value {
	if len(x) != len(y) {
		return mkBool(false)
	}
	tc := g.p.w.tc
	r := tc.tTrue
	for i := range x {
		if x[i].P == nil && y[i].P == nil {
			if x[i].C != y[i].C {
				return mkBool(false)
			}
			continue
		}
		r = tc.And(r, tc.Eq(x[i].term(tc, 8), y[i].term(tc, 8)))
		if r.isConst() && r.c == 0 {
			break
		}
	}
	return mkTerm(r)
}

// strLt builds a < b lexicographically.
func (g *G) strLt(a, b Value) Value {
	if sa, ok := strConc(a); ok {
		if sb, ok := strConc(b); ok {
			return mkBool(sa < sb)
		}
	}
	x, y := strBytes(a), strBytes(b)
	tc := g.p.w.tc
	n := min(len(x), len(y))
	r := tc.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := x[i].term(tc, 8), y[i].term(tc, 8)
		r = tc.Or(tc.Cmp(OpULt, p, q), tc.And(tc.Eq(p, q), r))
	}
	return mkTerm(r)
}

func (g *G) andV(a, b Value) Value {
	tc := g.p.w.tc
	return mkTerm(tc.And(a.term(tc, 0), b.term(tc, 0)))
}
func (g *G) notV(a Value) Value {
	tc := g.p.w.tc
	return mkTerm(tc.Not(a.term(tc, 0)))
}

func (g *G) equals(t types.Type, a, b Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(t)
		switch k.k {
		case kString:
			return g.strEq(a, b)
		case kInt, kBool:
			if a.P == nil && b.P == nil {
				return mkBool(a.C == b.C)
			}
			if (a.P != nil && a.sym() == nil) || (b.P != nil && b.sym() == nil) {
				bad(a, "eq")
				bad(b, "eq")
			}
			tc := g.p.w.tc
			return mkTerm(tc.Eq(a.term(tc, k.width()), b.term(tc, k.width())))
		case kFloat64:
			return mkBool(f64(a) == f64(b))
		case kFloat32:
			return mkBool(f32(a) == f32(b))
		}
		return mkBool(a.P == b.P && a.C == b.C)
	case *types.Struct:
		x, ok1 := a.P.(*Agg)
		y, ok2 := b.P.(*Agg)
		if !ok1 || !ok2 {
			bad(a, "struct eq")
		}
		r := mkBool(true)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = g.andV(r, g.equals(u.Field(i).Type(), x.f[i], y.f[i]))
			if r.P == nil && r.C == 0 {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.P.(*Agg), b.P.(*Agg)
		r := mkBool(true)
		for i := range x.f {
			r = g.andV(r, g.equals(u.Elem(), x.f[i], y.f[i]))
			if r.P == nil && r.C == 0 {
				return r
			}
		}
		return r
	case *types.Interface:
		x, _ := a.P.(*Iface)
		y, _ := b.P.(*Iface)
		if x == nil || y == nil {
			if (a.P != nil && x == nil) || (b.P != nil && y == nil) {
				bad(a, "iface eq")
			}
			return mkBool(x == nil && y == nil)
		}
		if !g.p.w.identical(x.T, y.T) {
			return mkBool(false)
		}
		if x == y {
			return mkBool(true)
		}
		switch x.T.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			g.rtPanic("comparing uncomparable type " + x.T.String())
		}
		return g.equals(x.T, x.V, y.V)
	case *types.Slice, *types.Map, *types.Signature:
		return mkBool(a.P == nil && b.P == nil)
	case *types.Pointer, *types.Chan:
		if _, ok := a.P.(*poison); ok {
			bad(a, "eq")
		}
		if _, ok := b.P.(*poison); ok {
			bad(b, "eq")
		}
		return mkBool(a.P == b.P)
	}
	panic(unsupported{"equals " + t.String()})
}

// ---- calls ----

func (g *G) prepCall(fr *frame, call *ssa.CallCommon, c *cinstr) (Value, []Value) {
	// operand order for CallCommon: Value, then Args
	v := fr.get(&c.ops[0])
	args := make([]Value, 0, len(c.ops))
	if call.Method != nil {
		i, ok := v.P.(*Iface)
		if !ok {
			if v.P == nil {
				g.nilDeref()
			}
			bad(v, "invoke "+call.Method.Name())
		}
		fn := g.findMethod(i.T, call.Method)
		if fn == nil {
			panic(unsupported{fmt.Sprintf("no method %s on %s", call.Method.Name(), i.T)})
		}
		args = append(args, i.V)
		for k := 1; k <= len(call.Args); k++ {
			args = append(args, fr.get(&c.ops[k]))
		}
		for k := range args {
			if _, ok := args[k].P.(*Agg); ok {
				args[k] = copyVal(args[k])
			}
		}
		return Value{P: fn}, args
	}
	for k := 1; k <= len(call.Args); k++ {
		a := fr.get(&c.ops[k])
		args = append(args, a)
	}
	return v, args
}

func (g *G) findMethod(t types.Type, m *types.Func) *ssa.Function {
	id := m.Id()
	k := mkey{t, id}
	if f, ok := g.p.w.mcache[k]; ok {
		return f
	}
	prog := g.p.ex.prog
	prog.mu.Lock()
	f := prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	prog.mu.Unlock()
	g.p.w.mcache[k] = f
	return f
}

func (g *G) doCall(fr *frame, call *ssa.CallCommon, c *cinstr, site ssa.Instruction) Value {
	fn, args := g.prepCall(fr, call, c)
	if b, ok := fn.P.(*ssa.Builtin); ok {
		return g.builtin(fr, b, args, call)
	}
	return g.callValue(fn, args, site)
}

func (g *G) callValue(fn Value, args []Value, site ssa.Instruction) Value {
	switch f := fn.P.(type) {
	case *ssa.Function:
		return g.call(f, args, nil, site)
	case *Closure:
		return g.call(f.fn, args, f.env, site)
	case *nativeFn:
		return f.fn(g, args)
	case *ssa.Builtin:
		var cc *ssa.CallCommon
		switch s := site.(type) {
		case *ssa.Defer:
			cc = &s.Call
		case *ssa.Go:
			cc = &s.Call
		case *ssa.Call:
			cc = &s.Call
		}
		return g.builtin(g.top, f, args, cc)
	case nil:
		g.nilDeref()
	}
	bad(fn, "call")
	return Value{}
}

func (pr *Program) findFunc(pkg, name string) *ssa.Function {
	for _, p := range pr.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			return p.Func(name)
		}
	}
	panic(unsupported{"no package " + pkg})
}

func (pr *Program) findType(pkg, name string) types.Type {
	for _, p := range pr.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

func (g *G) builtin(fr *frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []Value
		if isStringType(call.Args[1].Type()) {
			add = strBytes(args[1])
		} else {
			add = sliceOf(args[1])
		}
		base := sliceOf(args[0])
		if len(add) == 0 {
			if args[0].P == nil && args[1].P != nil && false {
				return args[0]
			}
			return args[0]
		}
		n := len(base) + len(add)
		if g.p.race != nil && g.watching() {
			if !isStringType(call.Args[1].Type()) {
				g.touchAll(add, false)
			}
			if n <= cap(base) {
				g.touchAll(base[len(base):n], true)
			} else {
				g.touchAll(base, false)
			}
		}
		var r []Value
		if n <= cap(base) {
			r = base[:n]
		} else {
			nc := cap(base)
			if nc == 0 {
				nc = n
			}
			for nc < n {
				if nc < 256 {
					nc *= 2
				} else {
					nc += (nc + 768) / 4
				}
			}
			r = make([]Value, n, nc)
			copy(r, base)
			if nc > n {
				// spare capacity holds zero values
				et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
				switch et.Underlying().(type) {
				case *types.Struct, *types.Array:
					full := r[:nc]
					for i := n; i < nc; i++ {
						full[i] = zero(et)
					}
				}
			}
		}
		if &add[0] == &r[len(base)] {
			return mkSlice(r)
		}
		tmp := add
		if len(base) > 0 || true {
			tmp = append([]Value(nil), add...)
		}
		for i, v := range tmp {
			r[len(base)+i] = copyVal(v)
		}
		return mkSlice(r)
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if isStringType(call.Args[1].Type()) {
			src = strBytes(args[1])
		} else {
			src = sliceOf(args[1])
		}
		n := min(len(dst), len(src))
		if g.p.race != nil && g.watching() {
			if !isStringType(call.Args[1].Type()) {
				g.touchAll(src[:n], false)
			}
			g.touchAll(dst[:n], true)
		}
		if n > 0 {
			if _, ok := src[0].P.(*Agg); ok {
				tmp := make([]Value, n)
				for i := 0; i < n; i++ {
					tmp[i] = copyVal(src[i])
				}
				src = tmp
			}
		}
		copy(dst[:n], src[:n])
		return mkInt(uint64(n))
	case "len":
		switch x := args[0].P.(type) {
		case nil:
			return Value{}
		case string:
			return mkInt(uint64(len(x)))
		case *SymStr:
			return mkInt(uint64(len(x.b)))
		case *SliceV:
			return mkInt(uint64(len(x.a)))
		case *MapObj:
			if g.p.race != nil && g.watching() {
				g.touch(x, false)
			}
			return mkInt(uint64(x.live))
		case *ChanObj:
			return mkInt(uint64(len(x.buf)))
		case *Agg:
			return mkInt(uint64(len(x.f)))
		case *Value:
			if a, ok := x.P.(*Agg); ok {
				return mkInt(uint64(len(a.f)))
			}
		}
		bad(args[0], "len")
	case "cap":
		switch x := args[0].P.(type) {
		case nil:
			return Value{}
		case *SliceV:
			return mkInt(uint64(cap(x.a)))
		case *ChanObj:
			return mkInt(uint64(x.cap))
		case *Agg:
			return mkInt(uint64(len(x.f)))
		case *Value:
			if a, ok := x.P.(*Agg); ok {
				return mkInt(uint64(len(a.f)))
			}
		}
		bad(args[0], "cap")
	case "delete":
		if args[0].P == nil {
			return Value{}
		}
		m, ok := args[0].P.(*MapObj)
		if !ok {
			bad(args[0], "delete")
		}
		if g.p.race != nil && g.watching() {
			g.touch(m, true)
		}
		g.mapDelete(m, args[1])
		return Value{}
	case "clear":
		switch x := args[0].P.(type) {
		case *MapObj:
			if g.p.race != nil && g.watching() {
				g.touch(x, true)
			}
			for _, e := range x.ents {
				e.dead = true
			}
			x.ents, x.idx, x.live, x.nsym = nil, map[string]*mapEnt{}, 0, 0
		case *SliceV:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				x.a[i] = zero(et)
			}
		}
		return Value{}
	case "close":
		g.chanClose(args[0])
		return Value{}
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			f := fr.caller
			f.panicking = false
			tp := f.panicVal.(targetPanic)
			return tp.v
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		t := call.Args[0].Type()
		k := kindOf(t)
		for _, a := range args[1:] {
			op := token.LSS
			var lt Value
			if b.Name() == "min" {
				lt = g.binop(op, t, k, k, a, r)
			} else {
				lt = g.binop(op, t, k, k, r, a)
			}
			if s := lt.sym(); s != nil {
				tc := g.p.w.tc
				if k.k == kInt {
					r = mkTerm(tc.Ite(s, a.term(tc, k.w), r.term(tc, k.w)))
				} else if g.p.branch(s) {
					r = a
				}
			} else if lt.C == 1 {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			g.nilDeref()
		}
		return args[0]
	case "String": // unsafe.String(ptr,len)
		n := g.concInt(args[1], kindInfo{64, true, kInt}, "unsafe.String")
		switch d := args[0].P.(type) {
		case *sliceData:
			return mkSymStr(append([]Value(nil), d.a[:n]...))
		case *strData:
			return strSlice(d.s, 0, int(n))
		case *Value: // an element of an array
			return mkSymStr(append([]Value(nil), unsafe.Slice(d, int(n))...))
		case nil:
			return Value{}
		}
		panic(unsupported{"unsafe.String"})
	case "StringData":
		if strLen(args[0]) == 0 {
			return Value{}
		}
		return Value{P: &strData{args[0]}}
	case "SliceData":
		if args[0].P == nil {
			return Value{}
		}
		return Value{P: &sliceData{sliceOf(args[0])}}
	case "Slice":
		n := g.concInt(args[1], kindInfo{64, true, kInt}, "unsafe.Slice")
		switch d := args[0].P.(type) {
		case *sliceData:
			return mkSlice(d.a[:n:n])
		case *strData:
			return mkSlice(strBytes(d.s)[:n:n])
		case nil:
			return Value{}
		}
		panic(unsupported{"unsafe.Slice"})
	}
	panic(unsupported{"builtin " + b.Name()})
}
