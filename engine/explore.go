package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- decisions and paths ----

type Dec struct {
	choice int
	n      int
	val    uint64
	hasVal bool
}

type workItem struct {
	decs  []Dec
	model Model
}

type Nondet struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	Val  int64  `json:"v"`
	term *Term
	conc bool
}

type Violation struct {
	Harness string
	Kind    string // assert | panic | deadlock | steps
	Msg     string
	Nondets []Nondet
	Sched   []string
	Stack   []string
	Finding string
	Obs     []string
	sig     string
}

type pathEnd struct {
	kind string // done, infeasible, unsupported, limit, violation, exit
	msg  string
}

type findingCond struct {
	id string
	t  *Term
}

type Path struct {
	w         *Worker
	ex        *Explorer
	prefix    []Dec
	pos       int
	decs      []Dec
	pc        []*Term
	model     Model
	hasModel  bool
	vars      []*Term
	nameCnt   map[string]int
	steps     int64
	stepLimit int64
	globals   map[*ssa.Global]*Value
	initDone  map[*ssa.Package]bool
	inInit    int
	nondets   []Nondet
	gs        []*G
	cur       *G
	dead      bool
	endReason *pathEnd
	wg        sync.WaitGroup
	clock     int64
	preempt   int // remaining preemption budget
	schedMode bool
	maxFork   int
	sync      map[any]any
	findings  []findingCond
	obsF      []func(Model) string
	sched     []string
	mapOrder  bool
	ids       int
	tmpHash   []hashEnt
	mergeOff  bool
	spec      int
	fsteps    map[string]int64
	timers    []*vtimer
	opaqueFmt int
	race      *raceState
}

type vtimer struct {
	at     int64
	fire   func(g *G)
	vc     vclock // of the goroutine that set it
	dead   bool
	period int64
}

type hashEnt struct {
	b   []Value
	out string
}

type Explorer struct {
	prog       *Program
	harness    *ssa.Function
	name       string
	tier       string
	mu         sync.Mutex
	cond       *sync.Cond
	queues     [][]workItem
	busy       int
	stop       bool
	deadline   time.Time
	maxPaths   int
	paths      int
	ends       map[string]int
	endMsgs    map[string]int
	viol       map[string]*Violation
	known      map[string]*Violation
	reach      map[string]int
	asserts    map[string]*assertStat
	bounds     map[string]int
	funcs      map[string]bool
	samples    []*PathSample
	witness    map[string]*PathSample
	steps      int64
	decisions  int64
	stats      SolverStats
	truncated  string
	knownIDs   map[string]bool
	preds      int
	unknowns   int
	sampleCap  int
	blockSteps map[string]int64
	assumes    map[string]bool
	solverBin  string
}

type assertStat struct{ trivial, unsat, sat, unknown int }

type PathSample struct {
	Nondets []Nondet
	Obs     []string
	Sched   []string
}

type Worker struct {
	ex     *Explorer
	id     int
	tc     *TC
	s      *Backends
	shared map[*ssa.Global]*Value
	shInit map[*ssa.Package]bool
	mcache map[mkey]*ssa.Function
	tcache map[tpair]bool
	funcs  map[*ssa.Function]bool
}

func (ex *Explorer) Run(nw int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.queues = make([][]workItem, nw)
	ex.queues[0] = []workItem{{}}
	ex.ends = map[string]int{}
	ex.endMsgs = map[string]int{}
	ex.viol = map[string]*Violation{}
	ex.known = map[string]*Violation{}
	ex.reach = map[string]int{}
	ex.asserts = map[string]*assertStat{}
	ex.bounds = map[string]int{}
	ex.funcs = map[string]bool{}
	ex.witness = map[string]*PathSample{}
	ex.blockSteps = map[string]int64{}
	ex.assumes = map[string]bool{}
	over := make(chan struct{})
	defer close(over)
	go func() { // a machine without memory gives no verdict at all
		for {
			select {
			case <-over:
				return
			case <-time.After(500 * time.Millisecond):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 14<<30 {
				ex.mu.Lock()
				ex.truncated = "memory limit reached"
				ex.stop = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			tc := NewTC()
			w := &Worker{ex: ex, id: i, tc: tc, shared: map[*ssa.Global]*Value{}, shInit: map[*ssa.Package]bool{}, mcache: map[mkey]*ssa.Function{}, tcache: map[tpair]bool{}, funcs: map[*ssa.Function]bool{}}
			defer func() {
				if w.s != nil {
					w.s.Close()
				}
			}()
			for {
				it, ok := ex.take(i)
				if !ok {
					break
				}
				w.runPath(it)
				ex.done()
			}
			ex.mu.Lock()
			if w.s != nil {
				ex.stats.Queries += w.s.stats.Queries
				ex.stats.Sat += w.s.stats.Sat
				ex.stats.Unsat += w.s.stats.Unsat
				ex.stats.Unknown += w.s.stats.Unknown
				ex.stats.Time += w.s.stats.Time
				if w.s.stats.MaxQuery > ex.stats.MaxQuery {
					ex.stats.MaxQuery = w.s.stats.MaxQuery
				}
			}
			for f := range w.funcs {
				if ex.prog.isRepo(f) {
					ex.funcs[f.String()] = true
				}
			}
			ex.mu.Unlock()
		}(i)
	}
	wg.Wait()
}

func (ex *Explorer) take(i int) (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if time.Now().After(ex.deadline) {
			ex.truncated = "time budget exhausted"
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		if q := ex.queues[i]; len(q) > 0 {
			it := q[len(q)-1]
			ex.queues[i] = q[:len(q)-1]
			ex.busy++
			return it, true
		}
		// steal the oldest item of the longest queue
		best := -1
		for j := range ex.queues {
			if len(ex.queues[j]) > 0 && (best < 0 || len(ex.queues[j]) > len(ex.queues[best])) {
				best = j
			}
		}
		if best >= 0 {
			it := ex.queues[best][0]
			ex.queues[best] = ex.queues[best][1:]
			ex.busy++
			return it, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.busy--
	ex.paths++
	if ex.maxPaths > 0 && ex.paths >= ex.maxPaths && !ex.stop {
		ex.truncated = "path limit reached"
		ex.stop = true
	}
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (p *Path) push(alt Dec, m Model) {
	if len(p.decs) > 50000 {
		panic(unsupported{"more than 50000 decisions on a path"})
	}
	ds := make([]Dec, len(p.decs)+1)
	copy(ds, p.decs)
	ds[len(p.decs)] = alt
	ex := p.ex
	ex.mu.Lock()
	ex.queues[p.w.id] = append(ex.queues[p.w.id], workItem{decs: ds, model: m})
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (w *Worker) runPath(it workItem) {
	if w.s == nil {
		w.s = NewBackends(w.tc, w.ex.solverBin, 20000)
	}
	if len(w.tc.tab) > 3000000 {
		// term table too large: start afresh
		w.s.Close()
		old := w.s.stats
		w.tc = NewTC()
		w.s = NewBackends(w.tc, w.ex.solverBin, 20000)
		w.s.stats = old
		w.shared = map[*ssa.Global]*Value{}
		w.shInit = map[*ssa.Package]bool{}
	}
	p := &Path{w: w, ex: w.ex, prefix: it.decs, model: it.model, hasModel: true, nameCnt: map[string]int{},
		globals: map[*ssa.Global]*Value{}, initDone: map[*ssa.Package]bool{}, stepLimit: 30_000_000, maxFork: 300, sync: map[any]any{}, clock: 1_700_000_000_000_000_000}
	if p.model == nil {
		p.model = Model{}
	}
	end := p.exec()
	p.finish(end)
}

func (p *Path) exec() (end pathEnd) {
	g := &G{p: p, wake: make(chan struct{}, 1), state: gRunnable, main: true}
	p.gs = append(p.gs, g)
	p.cur = g
	defer func() {
		r := recover()
		p.dead = true
		for _, o := range p.gs[1:] {
			if o.state != gDone {
				select {
				case o.wake <- struct{}{}:
				default:
				}
			}
		}
		p.wg.Wait()
		if r != nil {
			switch e := r.(type) {
			case pathEnd:
				end = e
			case unsupported:
				end = pathEnd{"unsupported", e.msg + " @ " + strings.Join(g.stackTrace(4), " < ")}
			case targetPanic:
				p.violation("panic", "panic: "+p.panicString(e.v), p.w.tc.tTrue, g)
				end = pathEnd{"violation", "panic"}
			default:
				panic(r)
			}
		}
		if p.endReason != nil {
			end = *p.endReason
		}
	}()
	g.call(p.ex.harness, nil, nil, nil)
	return pathEnd{"done", ""}
}

func (p *Path) finish(end pathEnd) {
	ex := p.ex
	var samp *PathSample
	if end.kind == "done" {
		ex.mu.Lock()
		want := len(ex.samples) < ex.sampleCap || (ex.paths%97 == 0 && len(ex.samples) < 4*ex.sampleCap)
		ex.mu.Unlock()
		if want {
			samp = p.sample(nil)
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.ends[end.kind]++
	if end.kind != "done" && end.kind != "infeasible" {
		ex.endMsgs[end.kind+": "+end.msg]++
	}
	ex.steps += p.steps
	ex.decisions += int64(len(p.decs))
	if samp != nil {
		ex.samples = append(ex.samples, samp)
	}
}

// sample concretises the current path with a model.
func (p *Path) sample(m Model) *PathSample {
	if m == nil {
		m = p.getModel(nil)
	}
	if m == nil {
		return nil
	}
	s := &PathSample{Sched: p.sched}
	for _, n := range p.nondets {
		s.Nondets = append(s.Nondets, p.evalNondet(n, m))
	}
	for _, o := range p.obsRaw() {
		s.Obs = append(s.Obs, o(m))
	}
	return s
}

func (p *Path) evalNondet(n Nondet, m Model) Nondet {
	if n.term != nil {
		v := p.w.tc.Eval(n.term, m)
		if n.W > 0 {
			n.Val = sext(v, n.W)
			if n.W < 64 {
				n.Val = int64(v)
			}
		} else {
			n.Val = int64(v)
		}
	}
	return n
}

// getModel returns a model of pc ∧ extra or nil.
func (p *Path) getModel(extra *Term) Model {
	if p.hasModel {
		if extra == nil || p.w.tc.Eval(extra, p.model) == 1 {
			return p.model
		}
	}
	r, m := p.check(extra)
	if r == Sat {
		if extra == nil {
			p.model, p.hasModel = m, true
		}
		return m
	}
	return nil
}

func (p *Path) check(extra *Term) (Res, Model) {
	r, m := p.w.s.Check(p.pc, extra, p.vars)
	if r == Unknown {
		p.ex.mu.Lock()
		p.ex.unknowns++
		p.ex.mu.Unlock()
	}
	return r, m
}

func (p *Path) replaying() bool { return p.pos < len(p.prefix) }

func (p *Path) addPC(t *Term) {
	if t.isConst() {
		return
	}
	p.pc = append(p.pc, t)
}

func (p *Path) end(kind, msg string) { panic(pathEnd{kind, msg}) }

// branch decides a symbolic condition, forking if both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if c.isConst() {
		return c.c == 1
	}
	tc := p.w.tc
	if p.spec > 0 {
		panic(mergeAbort{})
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		t := c
		if d.choice == 0 {
			t = tc.Not(c)
		}
		if d.n > 1 {
			p.addPC(t)
		}
		return d.choice == 1
	}
	var side bool
	known := false
	if p.hasModel {
		side = tc.Eval(c, p.model) == 1
		known = true
	}
	if !known {
		r, m := p.check(c)
		switch r {
		case Sat:
			side = true
			p.model, p.hasModel = m, true
		case Unsat:
			p.decs = append(p.decs, Dec{choice: 0, n: 1})
			return false
		default:
			p.end("unknown", "solver unknown on branch")
		}
	}
	t, o := c, tc.Not(c)
	if !side {
		t, o = o, t
	}
	r, m := p.check(o)
	ch := 0
	if side {
		ch = 1
	}
	if r != Sat {
		if r == Unknown {
			p.note("unknown", "branch alternative undecided")
			p.decs = append(p.decs, Dec{choice: ch, n: 2})
			p.addPC(t)
			return side
		}
		p.decs = append(p.decs, Dec{choice: ch, n: 1})
		return side
	}
	p.push(Dec{choice: 1 - ch, n: 2}, m)
	p.decs = append(p.decs, Dec{choice: ch, n: 2})
	p.addPC(t)
	return side
}

func (p *Path) note(kind, msg string) {
	p.ex.mu.Lock()
	p.ex.endMsgs["note-"+kind+": "+msg]++
	p.ex.mu.Unlock()
}

// concretize forks over all feasible values of t.
func (p *Path) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.c
	}
	if p.spec > 0 {
		panic(mergeAbort{})
	}
	tc := p.w.tc
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		p.addPC(tc.Eq(t, p.constLike(d.val, t)))
		return d.val
	}
	if !p.hasModel {
		if p.getModel(nil) == nil {
			p.end("unknown", "no model")
		}
	}
	type alt struct {
		v uint64
		m Model
	}
	v0 := tc.Eval(t, p.model)
	alts := []alt{{v0, p.model}}
	excl := tc.Not(tc.Eq(t, p.constLike(v0, t)))
	for {
		r, m := p.check(excl)
		if r == Unsat {
			break
		}
		if r == Unknown {
			p.note("unknown", "concretize "+what)
			break
		}
		v := tc.Eval(t, m)
		alts = append(alts, alt{v, m})
		excl = tc.And(excl, tc.Not(tc.Eq(t, p.constLike(v, t))))
		if len(alts) > p.maxFork {
			panic(unsupported{"domain too large to concretize: " + what + " " + t.pretty(4)})
		}
	}
	for i := len(alts) - 1; i > 0; i-- {
		p.push(Dec{choice: i, n: len(alts), val: alts[i].v, hasVal: true}, alts[i].m)
	}
	p.decs = append(p.decs, Dec{choice: 0, n: len(alts), val: v0, hasVal: true})
	p.addPC(tc.Eq(t, p.constLike(v0, t)))
	return v0
}

func (p *Path) constLike(v uint64, t *Term) *Term {
	if t.w == 0 {
		return p.w.tc.Bool(v == 1)
	}
	return p.w.tc.Const(v, t.w)
}

// choose is an unconstrained n-ary choice (scheduling); a fresh variable stands for it.
func (p *Path) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if p.replaying() {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		p.sched = append(p.sched, fmt.Sprintf("%s=%d/%d", what, d.choice, n))
		return d.choice
	}
	m := p.model
	if !p.hasModel {
		m = p.getModel(nil)
	}
	for i := n - 1; i > 0; i-- {
		p.push(Dec{choice: i, n: n}, m)
	}
	p.decs = append(p.decs, Dec{choice: 0, n: n})
	p.sched = append(p.sched, fmt.Sprintf("%s=0/%d", what, n))
	return 0
}

func (p *Path) assume(c *Term) {
	if c.isConst() {
		if c.c == 0 {
			p.end("infeasible", "")
		}
		return
	}
	p.addPC(c)
	if p.replaying() {
		return
	}
	if p.hasModel && p.w.tc.Eval(c, p.model) == 1 {
		return
	}
	r, m := p.check(nil)
	switch r {
	case Unsat:
		p.end("infeasible", "")
	case Unknown:
		p.end("unknown", "assume undecided")
	}
	p.model, p.hasModel = m, true
}

func (p *Path) assertT(c *Term, msg string, g *G) {
	ex := p.ex
	rec := func(f func(*assertStat)) {
		ex.mu.Lock()
		st := ex.asserts[msg]
		if st == nil {
			st = &assertStat{}
			ex.asserts[msg] = st
		}
		f(st)
		ex.mu.Unlock()
	}
	tc := p.w.tc
	if c.isConst() && c.c == 1 {
		if !p.replaying() {
			rec(func(s *assertStat) { s.trivial++ })
		}
		return
	}
	if !p.replaying() {
		neg := tc.Not(c)
		ok := p.violation("assert", msg, neg, g)
		switch ok {
		case Unsat:
			rec(func(s *assertStat) { s.unsat++ })
		case Sat:
			rec(func(s *assertStat) { s.sat++ })
		default:
			rec(func(s *assertStat) { s.unknown++ })
		}
	}
	if c.isConst() {
		p.end("violation", msg)
	}
	p.assume(c)
}

// violation records a violation if pc ∧ cond is satisfiable (first outside the known findings).
func (p *Path) violation(kind, msg string, cond *Term, g *G) Res {
	tc := p.w.tc
	ex := p.ex
	outside := cond
	for _, f := range p.findings {
		outside = tc.And(outside, tc.Not(f.t))
	}
	res := Unsat
	try := func(c *Term) Model {
		if c.isConst() && c.c == 0 {
			return nil
		}
		if p.hasModel && tc.Eval(c, p.model) == 1 {
			return p.model
		}
		r, m := p.check(c)
		if r == Unknown {
			res = Unknown
		}
		if r == Sat {
			return m
		}
		return nil
	}
	record := func(m Model, finding string) {
		s := p.sample(m)
		v := &Violation{Harness: ex.name, Kind: kind, Msg: msg, Nondets: s.Nondets, Sched: s.Sched, Finding: finding, Obs: s.Obs, Stack: g.stackTrace(12)}
		v.sig = kind + "|" + noDigits(msg) + "|" + finding
		ex.mu.Lock()
		defer ex.mu.Unlock()
		tab := ex.viol
		if finding != "" {
			tab = ex.known
		}
		if o := tab[v.sig]; o == nil || len(o.Nondets)+len(o.Sched) > len(v.Nondets)+len(v.Sched) {
			tab[v.sig] = v
		}
	}
	if m := try(outside); m != nil {
		record(m, "")
		return Sat
	}
	if outside == cond {
		return res
	}
	for _, f := range p.findings {
		if m := try(tc.And(cond, f.t)); m != nil {
			record(m, f.id)
			res = Sat
		}
	}
	return res
}

func (p *Path) newVar(name string, w uint8, lo, hi int64, ranged bool) *Term {
	k := p.nameCnt[name]
	p.nameCnt[name] = k + 1
	full := fmt.Sprintf("%s#%d", strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, name), k)
	tc := p.w.tc
	t := tc.Var(full, w, lo, hi, ranged)
	p.vars = append(p.vars, t)
	if ranged {
		a := tc.mk(OpSLe, 0, 0, "", tc.Const(uint64(lo), w), t)
		b := tc.mk(OpSLe, 0, 0, "", t, tc.Const(uint64(hi), w))
		p.pc = append(p.pc, tc.mk(OpAnd, 0, 0, "", a, b))
		if p.hasModel {
			if _, ok := p.model[t.name]; !ok {
				nm := make(Model, len(p.model)+1)
				for k, v := range p.model {
					nm[k] = v
				}
				v := lo
				if lo <= 0 && hi >= 0 {
					v = 0
				}
				nm[t.name] = uint64(v) & mask(w)
				p.model = nm
			}
		}
	}
	p.nondets = append(p.nondets, Nondet{Name: full, W: w, term: t})
	return t
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// noDigits drops numbers, so that one fault with many values is one report.
func noDigits(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}
