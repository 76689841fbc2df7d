package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Branch merging. With `merge` in a contract the two arms of a conditional
// that meet again are joined into one state at the meeting point instead of
// being followed separately, so that a long sequence of independent
// conditionals does not multiply paths.

type arrival struct {
	fr  *Frame
	st  *State
	phi []Val
	prv *ssa.BasicBlock
}

type joinStop struct {
	at  *ssa.BasicBlock
	got []arrival
	up  *joinStop
}

// joinOf finds the block where the arms of b's conditional meet again.
func (e *Engine) joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	loops := e.P.loopsOf(b.Parent())
	var best *ssa.BasicBlock
	for _, j := range b.Dominees() {
		if len(j.Preds) < 2 {
			continue
		}
		if _, hdr := loops[j]; hdr {
			continue
		}
		same := true
		for _, body := range loops {
			if body[b] != body[j] {
				same = false
			}
		}
		if !same {
			continue
		}
		if best == nil || reaches(best, j, b) {
			best = j
		}
	}
	return best
}

func reaches(from, to, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{avoid: true}
	work := []*ssa.BasicBlock{from}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == to {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

func (e *Engine) branchMerged(fr *Frame, st *State, b, j *ssa.BasicBlock, c *Term) {
	u := e.u
	stop := &joinStop{at: j, up: fr.stop}
	for k, cc := range []*Term{c, u.Not(c)} {
		if !e.feasible(st, cc) {
			continue
		}
		st2 := st.clone()
		e.assume(st2, cc)
		fr2 := fr.clone()
		fr2.stop = stop
		e.enter(fr2, st2, b.Succs[k], b)
	}
	if len(stop.got) == 0 {
		return
	}
	for _, g := range e.mergeArrivals(fr, st, j, stop.got) {
		e.run(g.fr, g.st, j, firstNonPhi(j))
	}
}

func (e *Engine) mergeArrivals(fr *Frame, base *State, j *ssa.BasicBlock, in []arrival) []arrival {
	phis := phisOf(j)
	finish := func(a arrival) arrival {
		f := fr.clone()
		f.defers = a.fr.defers
		for i, p := range phis {
			f.vals[p] = a.phi[i]
		}
		a.fr = f
		return a
	}
	var out []arrival
	for len(in) > 0 {
		cur := in[0]
		group := []arrival{cur}
		var rest []arrival
		for _, a := range in[1:] {
			if e.mergeable(phis, cur, a) {
				group = append(group, a)
			} else {
				rest = append(rest, a)
			}
		}
		in = rest
		if len(group) > 1 {
			cur = e.mergeGroup(base, phis, group)
		}
		out = append(out, finish(cur))
	}
	return out
}

func (e *Engine) mergeable(phis []*ssa.Phi, a, b arrival) bool {
	if a.st.ep != b.st.ep || len(a.fr.defers) != len(b.fr.defers) {
		return false
	}
	for i := range phis {
		if !e.mergeableVal(a.phi[i], b.phi[i]) {
			return false
		}
	}
	return true
}

func (e *Engine) mergeableVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		_, ok := b.(*Term)
		return ok
	case SliceV:
		_, ok := b.(SliceV)
		return ok
	case IfaceV:
		_, ok := b.(IfaceV)
		return ok
	case Ptr:
		y, ok := b.(Ptr)
		return ok && (x == y || x.kind == PObj && y.kind == PObj)
	}
	return false
}

func (e *Engine) mergeGroup(base *State, phis []*ssa.Phi, g []arrival) arrival {
	u := e.u
	delta := func(a arrival) []*Term {
		var ds []*Term
		for p := a.st.pc; p != base.pc; p = p.prev {
			ds = append(ds, p.t)
		}
		for i, k := 0, len(ds)-1; i < k; i, k = i+1, k-1 {
			ds[i], ds[k] = ds[k], ds[i]
		}
		return ds
	}
	st := base.clone()
	st.ep = g[0].st.ep
	sel := make([]*Term, len(g))
	ds := make([][]*Term, len(g))
	for i := range g {
		ds[i] = delta(g[i])
	}
	if len(g) == 2 && len(ds[0]) > 0 && len(ds[1]) > 0 && ds[0][0] == u.Not(ds[1][0]) {
		sel[0], sel[1] = ds[0][0], ds[1][0]
		for i := range g {
			for _, d := range ds[i][1:] {
				e.assumeRaw(st, u.Imp(sel[i], d))
			}
		}
	} else {
		for i := range g {
			sel[i] = u.Fresh("sel", SBool)
			for _, d := range ds[i] {
				e.assumeRaw(st, u.Imp(sel[i], d))
			}
		}
		e.assumeRaw(st, u.Or(sel...))
	}
	pick := func(ts []*Term) *Term {
		r := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			r = u.Ite(sel[i], ts[i], r)
		}
		return r
	}
	names := map[string]bool{}
	for _, a := range g {
		for n := range a.st.heap {
			names[n] = true
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		var ts []*Term
		for _, a := range g {
			ts = append(ts, e.heapGet(a.st, n, e.heapSorts[n]))
		}
		h := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			h = e.pickHeap(sel[i], ts[i], h)
		}
		st.heap[n] = h
	}
	var tops []*Term
	for _, a := range g {
		tops = append(tops, a.st.top)
	}
	st.top = pick(tops)
	phi := make([]Val, len(phis))
	for i, p := range phis {
		same := true
		for _, a := range g[1:] {
			if !sameVal(a.phi[i], g[0].phi[i]) {
				same = false
			}
		}
		if same {
			phi[i] = g[0].phi[i]
			continue
		}
		var comps [][]*Term
		for _, a := range g {
			comps = append(comps, e.toComps(a.phi[i], p.Type()))
		}
		ts := make([]*Term, len(comps[0]))
		for k := range ts {
			var col []*Term
			for _, c := range comps {
				col = append(col, c[k])
			}
			ts[k] = pick(col)
		}
		phi[i] = e.fromComps(st, p.Type(), ts)
	}
	return arrival{fr: g[0].fr, st: st, phi: phi}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		return Val(x) == b
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x == y
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && x.tag == y.tag && x.pay == y.pay
	}
	return false
}

// assumeRaw adds a hypothesis whose quantifiers are already prepared.
func (e *Engine) assumeRaw(st *State, t *Term) {
	if t == e.u.True {
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{t, st.pc, n}
}

// pickHeap joins two heaps. Where both are the same heap with stores on top,
// only the stored cells are joined.
func (e *Engine) pickHeap(c, a, b *Term) *Term {
	u := e.u
	if a == b {
		return a
	}
	chain := map[*Term]bool{}
	for x := a; ; x = x.args[0] {
		chain[x] = true
		if x.op != "store" {
			break
		}
	}
	base := b
	for !chain[base] {
		if base.op != "store" {
			return u.Ite(c, a, b)
		}
		base = base.args[0]
	}
	var addrs []*Term
	seen := map[*Term]bool{}
	for _, x := range []*Term{a, b} {
		var as []*Term
		for ; x != base; x = x.args[0] {
			as = append(as, x.args[1])
		}
		for i := len(as) - 1; i >= 0; i-- {
			if !seen[as[i]] {
				seen[as[i]] = true
				addrs = append(addrs, as[i])
			}
		}
	}
	r := base
	for _, k := range addrs {
		x, y := u.Select(a, k), u.Select(b, k)
		if x.sort.isArr() {
			r = u.Store(r, k, e.pickHeap(c, x, y))
		} else {
			r = u.Store(r, k, u.Ite(c, x, y))
		}
	}
	return r
}
