package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (g *G) spawn(fn Value, args []Value, site ssa.Instruction) {
	p := g.p
	for i := range args {
		args[i] = copyVal(args[i])
	}
	n := &G{p: p, id: len(p.gs), wake: make(chan struct{}, 1), state: gRunnable}
	p.gs = append(p.gs, n)
	if p.race != nil {
		n.vc.join(g.vc)
		n.tick()
		g.tick()
	}
	p.wg.Add(1)
	go func() {
		defer p.wg.Done()
		<-n.wake
		if p.dead {
			n.state = gDone
			return
		}
		defer func() {
			r := recover()
			n.state = gDone
			if p.dead {
				return
			}
			if r != nil {
				var end pathEnd
				switch e := r.(type) {
				case pathEnd:
					end = e
				case unsupported:
					end = pathEnd{"unsupported", e.msg + " @ goroutine " + fmt.Sprint(n.stackTrace(4))}
				case targetPanic:
					func() {
						defer func() {
							if r := recover(); r != nil {
								if pe, ok := r.(pathEnd); ok {
									end = pe
									return
								}
								panic(r)
							}
						}()
						p.violation("panic", "panic in goroutine: "+p.panicString(e.v), p.w.tc.tTrue, n)
						end = pathEnd{"violation", "panic"}
					}()
				default:
					panic(r)
				}
				p.abort(end)
				return
			}
			// normal exit: hand the baton over
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						if !p.dead {
							p.abort(pe)
						}
						return
					}
					panic(r)
				}
			}()
			n.handOver()
		}()
		n.callValue(fn, args, site)
	}()
	g.schedPoint("go")
}

// abort ends the path from a non-main goroutine.
func (p *Path) abort(end pathEnd) {
	if p.endReason == nil {
		p.endReason = &end
	}
	p.dead = true
	m := p.gs[0]
	select {
	case m.wake <- struct{}{}:
	default:
	}
}

func (p *Path) runnable() []*G {
	var r []*G
	for _, x := range p.gs {
		if x.state == gRunnable {
			r = append(r, x)
		}
	}
	if p.schedMode { // those which only wait for the others give way
		var o []*G
		for _, x := range r {
			if !x.draining {
				o = append(o, x)
			}
		}
		if len(o) > 0 {
			return o
		}
	}
	return r
}

// pick chooses the next goroutine to run when the current one cannot continue.
func (g *G) pick() *G {
	p := g.p
	for {
		r := p.runnable()
		if len(r) > 0 {
			if p.schedMode {
				return r[p.choose(len(r), "sched")]
			}
			// round robin: first runnable after g
			for _, x := range r {
				if x.id > g.id {
					return x
				}
			}
			return r[0]
		}
		// advance virtual time
		var best *G
		for _, x := range p.gs {
			if x.state == gSleeping && (best == nil || x.wakeAt < best.wakeAt) {
				best = x
			}
		}
		var tm *vtimer
		for _, t := range p.timers {
			if !t.dead && (tm == nil || t.at < tm.at) {
				tm = t
			}
		}
		if tm != nil && (best == nil || tm.at <= best.wakeAt) {
			if tm.at > p.clock {
				p.clock = tm.at
			}
			tm.dead = true
			if p.race != nil { // as the goroutine that set the timer
				vc := g.vc
				g.vc = nil
				g.vc.join(tm.vc)
				g.vc.grow(g.id + 1)
				tm.fire(g)
				g.vc = vc
			} else {
				tm.fire(g)
			}
			continue
		}
		if best != nil {
			if best.wakeAt > p.clock {
				p.clock = best.wakeAt
			}
			best.state = gRunnable
			continue
		}
		// deadlock
		msg := "deadlock: all goroutines blocked"
		for _, x := range p.gs {
			if x.state == gBlocked {
				msg += fmt.Sprintf("; g%d %s", x.id, x.why)
			}
		}
		p.violation("deadlock", "deadlock: all goroutines blocked", p.w.tc.tTrue, p.gs[0])
		p.end("violation", msg)
	}
}

func (g *G) switchTo(n *G) {
	if n == g {
		return
	}
	p := g.p
	p.cur = n
	n.wake <- struct{}{}
	<-g.wake
	if p.dead {
		panic(pathEnd{"dead", ""})
	}
}

// handOver passes the baton without waiting (goroutine exit).
func (g *G) handOver() {
	n := g.pick()
	g.p.cur = n
	n.wake <- struct{}{}
}

// block parks the goroutine until another makes it runnable.
func (g *G) block(why string) {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	g.state = gBlocked
	g.why = why
	n := g.pick()
	g.switchTo(n)
}

// schedPoint is a possible preemption point.
func (g *G) schedPoint(what string) {
	p := g.p
	if !p.schedMode || p.preempt <= 0 || p.inInit > 0 || p.spec > 0 {
		return
	}
	r := p.runnable()
	if len(r) <= 1 || g.draining {
		return
	}
	// option 0: continue
	var others []*G
	for _, x := range r {
		if x != g {
			others = append(others, x)
		}
	}
	c := p.choose(len(others)+1, "preempt@"+what)
	if c == 0 {
		return
	}
	p.preempt--
	g.switchTo(others[c-1])
}

func (g *G) yield() {
	p := g.p
	r := p.runnable()
	if len(r) == 0 || len(r) == 1 && r[0] == g {
		return
	}
	if p.schedMode {
		n := r[p.choose(len(r), "yield")]
		g.switchTo(n)
		return
	}
	for _, x := range r {
		if x.id > g.id {
			g.switchTo(x)
			return
		}
	}
	if r[0] != g {
		g.switchTo(r[0])
	}
}

func (g *G) sleep(ns int64) {
	if ns <= 0 {
		g.yield()
		return
	}
	g.state = gSleeping
	g.wakeAt = g.p.clock + ns
	n := g.pick()
	g.switchTo(n)
}

// ---- channels ----

func (g *G) chanOf(v Value) *ChanObj {
	if v.P == nil {
		return nil
	}
	c, ok := v.P.(*ChanObj)
	if !ok {
		bad(v, "chan")
	}
	return c
}

func (w *waiter) live() bool { return !*w.done }

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.live() {
			return w
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.live() {
			return true
		}
	}
	return false
}

func (w *waiter) complete(v Value, ok bool) {
	*w.done = true
	if w.sel != nil {
		*w.sel = w.idx
	}
	if w.out != nil {
		*w.out = v
	}
	if w.okp != nil {
		*w.okp = ok
	}
	w.g.state = gRunnable
}

func (g *G) canSend(c *ChanObj) bool {
	return c != nil && (c.closed || len(c.buf) < c.cap || hasWaiter(c.recvq))
}
func (g *G) canRecv(c *ChanObj) bool {
	return c != nil && (c.closed || len(c.buf) > 0 || hasWaiter(c.sendq))
}

func (g *G) doSend(c *ChanObj, v Value) {
	if c.closed {
		g.rtPanicRaw("send on closed channel")
	}
	if g.p.race != nil && c.cap > 0 {
		g.acquire(c, 'r')
		g.release(c, 's')
	}
	if w := popWaiter(&c.recvq); w != nil {
		g.meet(w.g, c.cap == 0)
		w.complete(v, true)
		return
	}
	c.buf = append(c.buf, v)
}

func (g *G) doRecv(c *ChanObj, et types.Type) (Value, bool) {
	if g.p.race != nil {
		g.acquire(c, 'c')
		if c.cap > 0 {
			g.acquire(c, 's')
			g.release(c, 'r')
		}
	}
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value(nil), c.buf[1:]...)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			if g.p.race != nil {
				w.g.release(c, 's')
				w.g.acquire(c, 'r')
			}
			w.complete(Value{}, true)
		}
		return v, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		v := w.val
		g.meet(w.g, true)
		w.complete(Value{}, true)
		return v, true
	}
	return zero(et), false
}

func (g *G) chanSend(cv, v Value) {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	g.schedPoint("send")
	c := g.chanOf(cv)
	if c == nil {
		for {
			g.block("send on nil channel")
		}
	}
	if g.canSend(c) {
		g.doSend(c, v)
		return
	}
	done := false
	ok := true
	w := &waiter{g: g, val: v, done: &done, okp: &ok}
	c.sendq = append(c.sendq, w)
	g.block("chan send")
	if !ok {
		g.rtPanicRaw("send on closed channel")
	}
}

func (g *G) chanRecv(cv Value, et types.Type) (Value, bool) {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	g.schedPoint("recv")
	c := g.chanOf(cv)
	if c == nil {
		for {
			g.block("receive on nil channel")
		}
	}
	if g.canRecv(c) {
		return g.doRecv(c, et)
	}
	done := false
	var out Value
	var ok bool
	w := &waiter{g: g, done: &done, out: &out, okp: &ok}
	c.recvq = append(c.recvq, w)
	g.block("chan receive")
	if !ok {
		g.acquire(c, 'c')
		out = zero(et)
	}
	return out, ok
}

func (g *G) chanClose(cv Value) {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	g.schedPoint("close")
	c := g.chanOf(cv)
	if c == nil {
		g.rtPanicRaw("close of nil channel")
	}
	if c.closed {
		g.rtPanicRaw("close of closed channel")
	}
	c.closed = true
	g.release(c, 'c')
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.complete(Value{}, false)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.complete(Value{}, false)
	}
}

func (g *G) selectStmt(fr *frame, in *ssa.Select, c *cinstr) Value {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	g.schedPoint("select")
	type cs struct {
		ch  *ChanObj
		val Value
		et  types.Type
		snd bool
	}
	cases := make([]cs, len(in.States))
	k := 0
	for i, st := range in.States {
		cases[i].ch = g.chanOf(fr.get(&c.ops[k]))
		k++
		if st.Dir == types.SendOnly {
			cases[i].snd = true
			cases[i].val = copyVal(fr.get(&c.ops[k]))
		}
		// Operands() lists Chan and Send for every state (Send may be nil)
		k++
		cases[i].et = st.Chan.Type().Underlying().(*types.Chan).Elem()
	}
	var ready []int
	for i := range cases {
		if cases[i].snd && g.canSend(cases[i].ch) || !cases[i].snd && g.canRecv(cases[i].ch) {
			ready = append(ready, i)
		}
	}
	idx := -1
	var rv Value
	rok := false
	if len(ready) > 0 {
		j := 0
		if g.p.schedMode {
			j = g.p.choose(len(ready), "select")
		}
		idx = ready[j]
		if cases[idx].snd {
			g.doSend(cases[idx].ch, cases[idx].val)
		} else {
			rv, rok = g.doRecv(cases[idx].ch, cases[idx].et)
		}
	} else if in.Blocking {
		done := false
		sel := -1
		var out Value
		ok := false
		for i := range cases {
			if cases[i].ch == nil {
				continue
			}
			w := &waiter{g: g, done: &done, idx: i, sel: &sel, out: &out, okp: &ok, val: cases[i].val}
			if cases[i].snd {
				cases[i].ch.sendq = append(cases[i].ch.sendq, w)
			} else {
				cases[i].ch.recvq = append(cases[i].ch.recvq, w)
			}
		}
		g.block("select")
		idx = sel
		if cases[idx].snd {
			if !ok {
				g.rtPanicRaw("send on closed channel")
			}
		} else {
			rv, rok = out, ok
			if !ok {
				g.acquire(cases[idx].ch, 'c')
				rv = zero(cases[idx].et)
			}
		}
	}
	res := []Value{mkInt(uint64(int64(idx))), mkBool(rok)}
	for i, st := range in.States {
		if st.Dir == types.RecvOnly {
			if i == idx {
				res = append(res, rv)
			} else {
				res = append(res, zero(cases[i].et))
			}
		}
	}
	return Value{P: res}
}

// ---- mutexes etc. (state keyed by the address of the Go object) ----

type mutexState struct {
	locked  bool
	readers int
	wq      []*waiter // all waiters; val.C 1 = writer, 0 = reader
}

func (p *Path) mutex(a any) *mutexState {
	if m, ok := p.sync[a].(*mutexState); ok {
		return m
	}
	m := &mutexState{}
	p.sync[a] = m
	return m
}

func (g *G) addrKey(v Value) *Value {
	a, ok := v.P.(*Value)
	if !ok {
		if v.P == nil {
			g.nilDeref()
		}
		bad(v, "sync object")
	}
	return a
}

func (g *G) mutexLock(a *Value, write bool) {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	g.schedPoint("lock")
	m := g.p.mutex(a)
	for {
		if write && !m.locked && m.readers == 0 {
			m.locked = true
			g.locked(m, true)
			return
		}
		if !write && !m.locked {
			m.readers++
			g.locked(m, false)
			return
		}
		done := false
		w := &waiter{g: g, done: &done}
		m.wq = append(m.wq, w)
		g.block("mutex lock")
	}
}

func (g *G) locked(m *mutexState, write bool) {
	g.acquire(m, 'w')
	if write {
		g.acquire(m, 'r')
	}
}

func (g *G) mutexTryLock(a *Value, write bool) bool {
	g.schedPoint("trylock")
	m := g.p.mutex(a)
	if write && !m.locked && m.readers == 0 {
		m.locked = true
		g.locked(m, true)
		return true
	}
	if !write && !m.locked {
		m.readers++
		g.locked(m, false)
		return true
	}
	return false
}

func (g *G) mutexUnlock(a *Value, write bool) {
	if g.p.spec > 0 {
		panic(mergeAbort{})
	}
	m := g.p.mutex(a)
	if write {
		if !m.locked {
			g.fatal("sync: unlock of unlocked mutex")
		}
		m.locked = false
		g.release(m, 'w')
	} else {
		if m.readers == 0 {
			g.fatal("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
		g.release(m, 'r')
	}
	q := m.wq
	m.wq = nil
	for _, w := range q {
		w.complete(Value{}, true)
	}
	g.schedPoint("unlock")
}

// fatal is an unrecoverable runtime error of the program under test.
func (g *G) fatal(msg string) {
	p := g.p
	p.violation("panic", "fatal error: "+msg, p.w.tc.tTrue, g)
	p.end("violation", msg)
}

type wgState struct {
	n  int64
	wq []*waiter
}

func (p *Path) wgs(a any) *wgState {
	if m, ok := p.sync[a].(*wgState); ok {
		return m
	}
	m := &wgState{}
	p.sync[a] = m
	return m
}

func (g *G) wgAdd(a *Value, n int64) {
	g.schedPoint("wg.add")
	s := g.p.wgs(a)
	s.n += n
	if n < 0 {
		g.release(s, 'w')
	}
	if s.n < 0 {
		panic(targetPanic{Value{P: &Iface{T: types.Typ[types.String], V: mkStr("sync: negative WaitGroup counter")}}})
	}
	if s.n == 0 {
		q := s.wq
		s.wq = nil
		for _, w := range q {
			w.complete(Value{}, true)
		}
	}
}

func (g *G) wgWait(a *Value) {
	g.schedPoint("wg.wait")
	s := g.p.wgs(a)
	if s.n > 0 {
		done := false
		s.wq = append(s.wq, &waiter{g: g, done: &done})
		g.block("WaitGroup.Wait")
	}
	g.acquire(s, 'w')
}

type onceState struct {
	done, running bool
	wq            []*waiter
}

func (g *G) onceDo(a *Value, fn Value) {
	g.schedPoint("once")
	s, ok := g.p.sync[a].(*onceState)
	if !ok {
		s = &onceState{}
		g.p.sync[a] = s
	}
	for s.running {
		done := false
		s.wq = append(s.wq, &waiter{g: g, done: &done})
		g.block("Once.Do")
	}
	if s.done {
		g.acquire(s, 'o')
		return
	}
	s.running = true
	defer func() {
		s.done, s.running = true, false
		g.release(s, 'o')
		for _, w := range s.wq {
			w.complete(Value{}, true)
		}
		s.wq = nil
	}()
	g.callValue(fn, nil, nil)
}

type condState struct{ wq []*waiter }

func (g *G) condOf(a *Value) *condState {
	s, ok := g.p.sync[a].(*condState)
	if !ok {
		s = &condState{}
		g.p.sync[a] = s
	}
	return s
}
