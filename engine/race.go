package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Happens-before race detection (vector clocks) over the memory accesses of the explored paths.
// A path's schedule stands for all schedules with the same synchronisation order, so an access
// pair that is unordered here is a race even if this schedule runs the two far apart.

type vclock []uint32

func (v *vclock) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}

func (v *vclock) join(o vclock) {
	v.grow(len(o))
	for i, c := range o {
		if c > (*v)[i] {
			(*v)[i] = c
		}
	}
}

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

type access struct {
	g   int
	clk uint32
	fn  *ssa.Function
	ins ssa.Instruction
}

type shadow struct {
	w access // last write (fn == nil: none)
	r []access
}

type raceState struct {
	sync map[any]*vclock
	mem  map[any]*shadow
	seen map[string]bool
	drop int // items of other goroutines: 1 kept by pools, 2 dropped
}

// pooled is an item of a sync.Pool and who put it there.
type pooled struct {
	g *G
	v Value
}

func (p *Path) raceOn() {
	if p.race != nil {
		return
	}
	p.race = &raceState{sync: map[any]*vclock{}, mem: map[any]*shadow{}, seen: map[string]bool{}}
	p.mergeOff = true
	for _, x := range p.gs {
		x.vc = nil
		x.tick()
	}
	// all that ran before is ordered before everything
	m := p.cur
	for _, x := range p.gs {
		if x != m {
			m.vc.join(x.vc)
		}
	}
}

func (g *G) tick() {
	g.vc.grow(g.id + 1)
	g.vc[g.id]++
}

type rkey struct {
	a any
	k byte
}

func (g *G) acquire(a any, k byte) {
	if r := g.p.race; r != nil {
		if v := r.sync[rkey{a, k}]; v != nil {
			g.vc.join(*v)
		}
	}
}

func (g *G) release(a any, k byte) {
	if r := g.p.race; r != nil {
		v := r.sync[rkey{a, k}]
		if v == nil {
			v = &vclock{}
			r.sync[rkey{a, k}] = v
		}
		v.join(g.vc)
		g.tick()
	}
}

// syncAll is a sequentially consistent operation on a.
func (g *G) syncAll(a any) {
	g.acquire(a, 'a')
	g.release(a, 'a')
}

// meet orders what both did before before what either does next.
func (g *G) meet(o *G, both bool) {
	if g.p.race == nil {
		return
	}
	if both {
		g.vc.join(o.vc)
	}
	o.vc.join(g.vc)
	g.tick()
	o.tick()
}

func (fi *fnInfo) watched(pr *Program) bool {
	if fi.watch == 0 {
		fi.watch = 1
		f := fi.fn
		if o := f.Origin(); o != nil {
			f = o
		}
		for f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg != nil {
			pp := f.Pkg.Pkg.Path()
			if !isHarnessFile(pr.prog.Fset.Position(f.Pos()).Filename) && !strings.HasPrefix(pp, "sync") && !strings.HasPrefix(pp, "internal/") && !strings.HasPrefix(pp, "runtime") && pp != "context" && pp != "time" && !strings.HasPrefix(pp, "common/verifrt") {
				fi.watch = 2
			}
		}
	}
	return fi.watch == 2
}

func (g *G) watching() bool {
	return g.p.race != nil && g.p.inInit == 0 && g.top != nil && len(g.p.gs) > 1 && g.top.info.watched(g.p.ex.prog)
}

func (g *G) touchCell(c *Value, write bool) {
	if a, ok := c.P.(*Agg); ok {
		for i := range a.f {
			g.touchCell(&a.f[i], write)
		}
		return
	}
	g.touch(c, write)
}

func (g *G) touchAll(a []Value, write bool) {
	for i := range a {
		g.touchCell(&a[i], write)
	}
}

func (g *G) touch(loc any, write bool) {
	r := g.p.race
	s := r.mem[loc]
	if s == nil {
		s = &shadow{}
		r.mem[loc] = s
	}
	me := access{g.id, g.vc[g.id], g.top.fn, g.top.ins}
	if s.w.fn != nil && s.w.g != g.id && s.w.clk > g.vc.at(s.w.g) {
		g.raced(s.w, true, me, write)
	}
	if !write {
		for i := range s.r {
			if s.r[i].g == g.id {
				s.r[i] = me
				return
			}
		}
		s.r = append(s.r, me)
		return
	}
	for _, o := range s.r {
		if o.g != g.id && o.clk > g.vc.at(o.g) {
			g.raced(o, false, me, true)
		}
	}
	s.w, s.r = me, s.r[:0]
}

func (g *G) raced(a access, aw bool, b access, bw bool) {
	p := g.p
	sa, sb := g.siteOf(a), g.siteOf(b)
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	x, y := kind(aw)+" in "+sa, kind(bw)+" in "+sb
	if x > y {
		x, y = y, x
	}
	msg := "data race: " + x + " and " + y
	if p.race.seen[msg] {
		return
	}
	p.race.seen[msg] = true
	p.violation("race", msg, p.w.tc.tTrue, g)
}

func (g *G) siteOf(a access) string {
	pos := a.fn.Pos()
	if a.ins != nil && a.ins.Pos().IsValid() {
		pos = a.ins.Pos()
	}
	q := g.p.ex.prog.prog.Fset.Position(pos)
	return fmt.Sprintf("%s (%s:%d)", a.fn.String(), filepath.Base(q.Filename), q.Line)
}

// raceSites returns the FILE:LINE texts of a race message.
func raceSites(msg string) []string {
	var r []string
	for i := strings.LastIndex(msg, ")"); i >= 0; i = strings.LastIndex(msg, ")") {
		j := strings.LastIndex(msg[:i], " (")
		if j < 0 {
			break
		}
		r = append(r, msg[j+2:i])
		msg = msg[:j]
		if !strings.Contains(msg, " and ") {
			break
		}
	}
	return r
}

// raceConfirmed tells whether a native run under the race detector reports these accesses.
func raceConfirmed(msg, out string) bool {
	if strings.Contains(out, "fatal error: concurrent map") {
		return true
	}
	for _, b := range strings.Split(out, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(b, "Goroutine "); i >= 0 { // accesses come before where goroutines were created
			b = b[:i]
		}
		n := 0
		for _, s := range raceSites(msg) {
			f, _, _ := strings.Cut(s, ":")
			if strings.Contains(b, "/"+f+":") {
				n++
			}
		}
		if n == 2 {
			return true
		}
	}
	return false
}

// stamp is the clock a timer set now will carry.
func (g *G) stamp() vclock {
	if g.p.race == nil {
		return nil
	}
	var v vclock
	v.join(g.vc)
	g.tick()
	return v
}
