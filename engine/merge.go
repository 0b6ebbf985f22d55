package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// If-conversion: a pure acyclic region between a symbolic branch and its join is evaluated
// without forking; phis at the join become ite terms.

type mergeInfo struct {
	region map[*ssa.BasicBlock]bool
	join   *ssa.BasicBlock
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Convert, *ssa.ChangeType, *ssa.FieldAddr, *ssa.Field, *ssa.Index, *ssa.IndexAddr, *ssa.Extract, *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.DebugRef:
		return true
	case *ssa.Lookup:
		return isStringType(x.X.Type())
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		if !pureInstr(in) {
			return false
		}
	}
	return true
}

func findMerges(fn *ssa.Function) map[*ssa.BasicBlock]*mergeInfo {
	var res map[*ssa.BasicBlock]*mergeInfo
	for _, b := range fn.Blocks {
		if len(b.Succs) != 2 {
			continue
		}
		if mi := findMerge(b); mi != nil {
			if res == nil {
				res = map[*ssa.BasicBlock]*mergeInfo{}
			}
			res[b] = mi
		}
	}
	return res
}

func findMerge(b *ssa.BasicBlock) *mergeInfo {
	region := map[*ssa.BasicBlock]bool{}
	for len(region) < 12 {
		// exits = successors of b ∪ region not in region
		exits := map[*ssa.BasicBlock]bool{}
		var order []*ssa.BasicBlock
		addE := func(s *ssa.BasicBlock) {
			if !region[s] && !exits[s] {
				exits[s] = true
				order = append(order, s)
			}
		}
		for _, s := range b.Succs {
			addE(s)
		}
		for _, r := range b.Parent().Blocks {
			if region[r] {
				for _, s := range r.Succs {
					addE(s)
				}
			}
		}
		if len(exits) == 1 {
			j := order[0]
			if j == b {
				return nil
			}
			// merging is only worthwhile if phis merge scalars
			return &mergeInfo{region: region, join: j}
		}
		// grow: pick an exit that is pure with all preds inside
		grown := false
		for _, e := range order {
			if e == b || !pureBlock(e) || len(e.Succs) == 0 {
				continue
			}
			ok := true
			for _, p := range e.Preds {
				if p != b && !region[p] {
					ok = false
				}
			}
			if ok {
				region[e] = true
				grown = true
				break
			}
		}
		if !grown {
			return nil
		}
	}
	return nil
}

type mergeAbort struct{}

func (p *Path) tryMerge(fr *frame, c *Term) (done bool) {
	if p.mergeOff {
		return false
	}
	mi := fr.info.merge[fr.block]
	if mi == nil {
		return false
	}
	nphi := 0
	for _, in := range mi.join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		k := kindOf(ph.Type()).k
		if k != kInt && k != kBool {
			return false
		}
		nphi++
	}
	g := fr.g
	saveMode := p.mergeOff
	saveIns := fr.ins
	saveBlock, savePrev := fr.block, fr.prev
	p.mergeOff = true
	vals := make([]*Term, nphi)
	jblk := fr.info.blocks[mi.join.Index]
	defer func() {
		p.mergeOff = saveMode
		fr.ins = saveIns
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, unsupported, targetPanic:
				fr.block, fr.prev = saveBlock, savePrev
				g.top = fr
				done = false
				return
			}
			panic(r)
		}
	}()
	tc := p.w.tc
	p.spec++
	defer func() { p.spec-- }()
	// topological evaluation with path conditions per edge
	type edge struct {
		from *ssa.BasicBlock
		idx  int // occurrence among preds is resolved by from
		cond *Term
	}
	in := map[*ssa.BasicBlock][]edge{}
	start := fr.block
	in[start.Succs[0]] = append(in[start.Succs[0]], edge{start, 0, c})
	in[start.Succs[1]] = append(in[start.Succs[1]], edge{start, 1, tc.Not(c)})
	pending := map[*ssa.BasicBlock]bool{}
	for b := range mi.region {
		pending[b] = true
	}
	phiTerm := func(b *ssa.BasicBlock, ci *cinstr, es []edge) *Term {
		w := kindOf(ci.ins.(*ssa.Phi).Type()).width()
		var r *Term
		for _, e := range es {
			for k, pr := range b.Preds {
				if pr != e.from {
					continue
				}
				v := fr.get(&ci.ops[k])
				if v.P != nil && v.sym() == nil {
					panic(mergeAbort{})
				}
				t := v.term(tc, w)
				if r == nil {
					r = t
				} else {
					r = tc.Ite(e.cond, t, r)
				}
				break
			}
		}
		return r
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for _, x := range start.Parent().Blocks {
			if !pending[x] {
				continue
			}
			ready := true
			for _, pr := range x.Preds {
				if pending[pr] {
					ready = false
				}
			}
			if ready {
				b = x
				break
			}
		}
		if b == nil {
			panic(mergeAbort{})
		}
		delete(pending, b)
		es := in[b]
		cond := tc.tFals
		for _, e := range es {
			cond = tc.Or(cond, e.cond)
		}
		if cond.isConst() && cond.c == 0 {
			continue
		}
		cs := fr.info.blocks[b.Index]
		p.steps += int64(len(cs))
		i := 0
		var pv []Value
		for ; i < len(cs); i++ {
			ph, ok := cs[i].ins.(*ssa.Phi)
			if !ok {
				break
			}
			if k := kindOf(ph.Type()).k; k != kInt && k != kBool {
				panic(mergeAbort{})
			}
			pv = append(pv, mkTerm(phiTerm(b, &cs[i], es)))
		}
		for k := range pv {
			fr.regs[cs[k].dst] = pv[k]
		}
		fr.block = b
		for ; i < len(cs); i++ {
			switch x := cs[i].ins.(type) {
			case *ssa.Jump:
				in[b.Succs[0]] = append(in[b.Succs[0]], edge{b, 0, cond})
			case *ssa.If:
				cv := fr.get(&cs[i].ops[0])
				if cv.P != nil && cv.sym() == nil {
					panic(mergeAbort{})
				}
				t := cv.term(tc, 0)
				in[b.Succs[0]] = append(in[b.Succs[0]], edge{b, 0, tc.And(cond, t)})
				in[b.Succs[1]] = append(in[b.Succs[1]], edge{b, 1, tc.And(cond, tc.Not(t))})
			default:
				_ = x
				if g.step(fr, &cs[i]) != ctlNext {
					panic(mergeAbort{})
				}
			}
		}
	}
	es := in[mi.join]
	for k := 0; k < nphi; k++ {
		vals[k] = phiTerm(mi.join, &jblk[k], es)
		if vals[k] == nil {
			panic(mergeAbort{})
		}
	}
	fr.phiVals = make([]Value, nphi)
	for k := range vals {
		fr.phiVals[k] = mkTerm(vals[k])
	}
	fr.hasPhi = true
	fr.prev = start
	fr.block = mi.join
	return true
}
