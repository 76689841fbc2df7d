package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopRun struct {
	dry  bool
	body map[*ssa.BasicBlock]bool
	back func(fr *Frame, st *State, prev *ssa.BasicBlock)
}

type hdr struct {
	phi []Val
	st  *State
}

type cand struct {
	key  string
	f    func(h *hdr) *Term
	tmpl bool
}

type accessor struct {
	name string
	f    func(h *hdr) *Term
	init *Term
	kind string // "int", "len", "off", "cell"
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := out[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					out[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if body[x] {
						continue
					}
					body[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	return out
}

type modInfo struct {
	inv   map[*Term]bool
	fresh bool
	wild  bool
}

func allocRoot(t *Term) *Term {
	for t.fn && isAddrFn(t.op) {
		t = t.args[0]
	}
	return t
}

func (e *Engine) enterLoop(fr *Frame, st *State, h, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	u := e.u
	phis := phisOf(h)
	init := e.edgeVals(fr, st, h, prev)
	entrySt := st.clone()
	entryMark := u.now
	mods := map[string]*modInfo{}
	all := false
	killed := map[string]bool{}
	entryOK := map[string]bool{}
	cmpTerms := map[*Term]bool{}
	verbose := e.P.verbose > 1 && e.dry == 0

	makeHeader := func() (*Frame, *State, *hdr) {
		fr1, st1 := fr.clone(), entrySt.clone()
		if all {
			e.havocAllQuiet(st1)
		} else {
			names := make([]string, 0, len(mods))
			for n := range mods {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				m := mods[n]
				base := e.heapGet(st1, n, e.heapSorts[n])
				_, vs := base.sort.elem()
				nh := base
				if m.wild {
					nh = u.Fresh("lp$"+n, base.sort)
				} else {
					if m.fresh {
						nh = u.Fresh("lp$"+n, base.sort)
						x := u.BVar("x", SInt)
						sel := u.Select(nh, x)
						cond := u.Lt(e.birth(x), entrySt.top)
						e.assume(st1, u.Forall([]*Term{x}, u.Imp(cond, u.Eq(sel, u.Select(base, x))), []*Term{sel}))
					}
					var as []*Term
					for a := range m.inv {
						as = append(as, a)
					}
					sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
					for _, a := range as {
						nh = u.Store(nh, a, u.Fresh("lp$"+n, vs))
					}
				}
				st1.heap[n] = nh
			}
		}
		nt := u.Fresh("top", SInt)
		e.assume(st1, u.Le(entrySt.top, nt))
		st1.top = nt
		hv := make([]Val, len(phis))
		for i, p := range phis {
			hv[i] = e.freshLike(st1, p.Type(), "lp$"+p.Name(), init[i])
			fr1.vals[p] = hv[i]
		}
		return fr1, st1, &hdr{hv, st1}
	}

	gen := func() []cand {
		return e.candidates(fr, phis, &hdr{init, entrySt}, mods, all, entryMark, cmpTerms)
	}

	check := func(h *hdr, cs []cand, onlyNew map[string]bool) (bad []string) {
		var ts []*Term
		var keys []string
		for _, c := range cs {
			if onlyNew != nil && onlyNew[c.key] {
				continue
			}
			t, ok := e.tryCand(c, h)
			if !ok {
				bad = append(bad, c.key)
				continue
			}
			ts = append(ts, t)
			keys = append(keys, c.key)
		}
		if len(ts) == 0 {
			return
		}
		if len(ts) > 1 {
			// group check: quantifier free ones together
			var group []*Term
			var gk []string
			var rest []*Term
			var rk []string
			for i, t := range ts {
				if hasQuant(t) {
					rest = append(rest, t)
					rk = append(rk, keys[i])
				} else {
					group = append(group, t)
					gk = append(gk, keys[i])
				}
			}
			if len(group) > 0 {
				bad = append(bad, e.groupCheck(h.st, group, gk)...)
			}
			for i, t := range rest {
				if !e.valid(h.st, t) {
					bad = append(bad, rk[i])
				}
			}
			return
		}
		if !e.valid(h.st, ts[0]) {
			bad = append(bad, keys[0])
		}
		return
	}

	alive := func(cs []cand) []cand {
		var out []cand
		for _, c := range cs {
			if !killed[c.key] {
				out = append(out, c)
			}
		}
		return out
	}

	e.dry++
	for round := 0; ; round++ {
		if round > 40 {
			panic(unsupported("loop analysis does not stabilise"))
		}
		cs := alive(gen())
		for _, k := range check(&hdr{init, entrySt}, cs, entryOK) {
			killed[k] = true
			if verbose && strings.HasPrefix(k, "T:") {
				fmt.Fprintf(os.Stderr, "  [loop %s.%d] not true at entry: %s\n", fr.fn.Name(), h.Index, k)
			}
		}
		cs = alive(cs)
		for _, c := range cs {
			entryOK[c.key] = true
		}
		fr1, st1, hd := makeHeader()
		for _, c := range cs {
			if t, ok := e.tryCand(c, hd); ok {
				e.assume(st1, t)
			}
		}
		var recs []writeRec
		var cmps []*Term
		e.recs = append(e.recs, &recs)
		e.cmps = append(e.cmps, &cmps)
		changed := false
		// preds: recorded before running so nested uses see them
		lr := &loopRun{dry: true, body: body}
		lr.back = func(fr2 *Frame, st2 *State, p2 *ssa.BasicBlock) {
			nv := e.edgeVals(fr2, st2, h, p2)
			for _, k := range check(&hdr{nv, st2}, alive(cs), nil) {
				if !killed[k] {
					killed[k] = true
					changed = true
					if verbose && strings.HasPrefix(k, "T:") {
						fmt.Fprintf(os.Stderr, "  [loop %s.%d] not preserved: %s\n", fr.fn.Name(), h.Index, k)
					}
				}
			}
		}
		fr1.loops[h] = lr
		savedPaths := e.paths
		e.run(fr1, st1, h, firstNonPhi(h))
		e.paths = savedPaths
		e.recs = e.recs[:len(e.recs)-1]
		e.cmps = e.cmps[:len(e.cmps)-1]
		for _, r := range recs {
			if r.heap == "*" {
				if !all {
					all = true
					changed = true
				}
				continue
			}
			m := mods[r.heap]
			if m == nil {
				m = &modInfo{inv: map[*Term]bool{}}
				mods[r.heap] = m
				changed = true
			}
			if m.wild {
				continue
			}
			switch {
			case r.addr == nil:
				m.wild = true
				changed = true
			case r.addr.mark <= entryMark:
				if !m.inv[r.addr] {
					m.inv[r.addr] = true
					changed = true
				}
			case isAlloc(allocRoot(r.addr)) && allocRoot(r.addr).mark > entryMark:
				if !m.fresh {
					m.fresh = true
					changed = true
				}
			default:
				m.wild = true
				changed = true
			}
			if len(m.inv) > 24 {
				m.wild = true
			}
		}
		for _, t := range cmps {
			if t.mark <= entryMark && !t.bound && !cmpTerms[t] && len(cmpTerms) < 12 {
				cmpTerms[t] = true
				changed = true
			}
		}
		// heaps first touched inside the loop must exist at entry
		for n := range mods {
			if _, ok := entrySt.heap[n]; !ok {
				if s, ok := e.heapSorts[n]; ok {
					e.heapGet(entrySt, n, s)
				}
			}
		}
		if !changed {
			break
		}
	}
	e.dry--
	cs := alive(gen())
	fr1, st1, hd := makeHeader()
	for _, c := range cs {
		if t, ok := e.tryCand(c, hd); ok {
			e.assume(st1, t)
		}
	}
	if e.dry == 0 {
		e.loopsN++
		e.invs += len(cs)
		if verbose {
			for _, c := range cs {
				fmt.Fprintf(os.Stderr, "  [loop %s.%d] inv %s\n", fr.fn.Name(), h.Index, c.key)
			}
			var ms []string
			for n, m := range mods {
				ms = append(ms, fmt.Sprintf("%s(inv=%d fresh=%v wild=%v)", n, len(m.inv), m.fresh, m.wild))
			}
			sort.Strings(ms)
			fmt.Fprintf(os.Stderr, "  [loop %s.%d] modifies %v all=%v\n", fr.fn.Name(), h.Index, ms, all)
		}
	}
	lr := &loopRun{body: body}
	lr.back = func(*Frame, *State, *ssa.BasicBlock) {} // invariants already shown inductive
	fr1.loops[h] = lr
	e.run(fr1, st1, h, firstNonPhi(h))
}

func hasQuant(t *Term) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.op == "forall" || x.op == "exists" {
			return true
		}
		for _, a := range x.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// groupCheck returns the keys of invalid members, checking conjunctions first.
func (e *Engine) groupCheck(st *State, ts []*Term, keys []string) []string {
	if len(ts) == 1 {
		if e.valid(st, ts[0]) {
			return nil
		}
		return keys
	}
	conj := e.u.And(ts...)
	if conj == e.u.True {
		return nil
	}
	if conj != e.u.False {
		as := append(e.pcTerms(st), e.u.Not(conj))
		r, _ := e.smt.check(e.u.Script(as), 800, nil)
		if strings.HasPrefix(r, "error") {
			panic("solver " + r)
		}
		if r == "unsat" {
			return nil
		}
	}
	m := len(ts) / 2
	return append(e.groupCheck(st, ts[:m], keys[:m]), e.groupCheck(st, ts[m:], keys[m:])...)
}

func (e *Engine) tryCand(c cand, h *hdr) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case specErr, unsupportedErr:
				if c.tmpl && e.P.verbose > 2 {
					fmt.Fprintln(os.Stderr, "  template", c.key, r)
				}
				t, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	return c.f(h), true
}

// freshLike is freshVal that keeps statically known shape (dynamic types).
func (e *Engine) freshLike(st *State, t types.Type, name string, init Val) Val {
	if _, ok := init.(*rangeIter); ok {
		return init
	}
	return e.freshVal(st, t, name)
}

func (e *Engine) havocAllQuiet(st *State) {
	saved := e.recs
	e.recs = nil
	e.havocAll(st)
	e.recs = saved
}

// candidates generates loop invariant candidates.
func (e *Engine) candidates(fr *Frame, phis []*ssa.Phi, en *hdr, mods map[string]*modInfo, all bool, mark int, cmp map[*Term]bool) []cand {
	u := e.u
	var cs []cand
	add := func(key string, f func(h *hdr) *Term) { cs = append(cs, cand{key: key, f: f}) }
	if !e.unit.noInvAuto {
		locs0 := e.unitLocs()
		var acc []accessor
		addAcc := func(name, kind string, f func(h *hdr) *Term) {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
				}
			}()
			acc = append(acc, accessor{name, f, f(en), kind})
		}
		for i, p := range phis {
			i := i
			pn := p.Name()
			switch v := en.phi[i].(type) {
			case *Term:
				if v.sort == SInt {
					if basicInt(p.Type()) != nil {
						addAcc(pn, "int", func(h *hdr) *Term { return h.phi[i].(*Term) })
						continue
					}
				}
				if v.sort == SStr {
					addAcc(pn+".len", "len", func(h *hdr) *Term { return e.slen(h.phi[i].(*Term)) })
				}
				add(pn+"==init", func(h *hdr) *Term { return u.Eq(h.phi[i].(*Term), v) })
			case SliceV:
				addAcc(pn+".len", "len", func(h *hdr) *Term { return h.phi[i].(SliceV).len })
				addAcc(pn+".off", "off", func(h *hdr) *Term { return h.phi[i].(SliceV).off })
				add(pn+".ref==init", func(h *hdr) *Term { return u.Eq(h.phi[i].(SliceV).ref, v.ref) })
				add(pn+".cap+off==init", func(h *hdr) *Term {
					s := h.phi[i].(SliceV)
					return u.Eq(u.Add(s.cap, s.off), u.Add(v.cap, v.off))
				})
				add(pn+".fresh", func(h *hdr) *Term {
					s := h.phi[i].(SliceV)
					return u.Or(u.Eq(s.cap, u.I(0)), u.Le(en.st.top, e.birth(s.ref)))
				})
				if holdsRefs(phis[i].Type()) {
					add(pn+".alive", func(h *hdr) *Term {
						env := e.entryEnv(h.st)
						env.vars["s"] = TV{h.phi[i], phis[i].Type()}
						return e.evalBool(aliveElems, env)
					})
				}
				if at := rowLocs(locs0); len(at) > 0 {
					add(pn+".freshM", func(h *hdr) *Term {
						s := h.phi[i].(SliceV)
						c := u.Or(u.Eq(s.cap, u.I(0)), u.Le(e.entry.top, e.birth(s.ref)))
						for _, a := range at {
							c = u.Or(c, u.Eq(s.ref, a))
						}
						return c
					})
				}
				add(pn+".fresh0", func(h *hdr) *Term {
					s := h.phi[i].(SliceV)
					return u.Or(u.Eq(s.cap, u.I(0)), u.Le(e.entry.top, e.birth(s.ref)))
				})
			case IfaceV:
				add(pn+"==init", func(h *hdr) *Term {
					w := h.phi[i].(IfaceV)
					return u.And(u.Eq(w.tag, v.tag), u.Eq(w.pay, v.pay))
				})
				add(pn+"!=nil", func(h *hdr) *Term { return u.Not(u.Eq(h.phi[i].(IfaceV).tag, u.I(0))) })
			case Ptr, FuncV:
				add(pn+"==init", func(h *hdr) *Term { return u.Eq(e.T(h.phi[i]), e.T(v)) })
				add(pn+"!=nil", func(h *hdr) *Term { return u.Not(u.Eq(e.T(h.phi[i]), u.I(0))) })
				add(pn+".fresh", func(h *hdr) *Term { return u.Le(e.entry.top, e.birth(e.T(h.phi[i]))) })
			}
		}
		// memory cells written at fixed addresses act like loop variables
		names := make([]string, 0, len(mods))
		for n := range mods {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			n := n
			m := mods[n]
			h0 := e.heapGet(en.st, n, e.heapSorts[n])
			if m.wild {
				add("frame:"+n, func(h *hdr) *Term {
					hh, ok := h.st.heap[n]
					if !ok || hh == h0 {
						return u.True
					}
					x := u.BVar("x", SInt)
					sel := u.Select(hh, x)
					return u.Forall([]*Term{x}, u.Imp(u.Lt(e.birth(x), en.st.top), u.Eq(sel, u.Select(h0, x))), []*Term{sel})
				})
				if at := heapLocs(locs0, n); len(at) > 0 {
					// the memory the contract lets change is the only old memory that does
					add("frameM:"+n, func(h *hdr) *Term {
						hh, ok := h.st.heap[n]
						if !ok || hh == h0 {
							return u.True
						}
						x := u.BVar("x", SInt)
						sel := u.Select(hh, x)
						cond := u.Lt(e.birth(x), e.entry.top)
						for _, a := range at {
							cond = u.And(cond, u.Not(u.Eq(x, a)))
						}
						return u.Forall([]*Term{x}, u.Imp(cond, u.Eq(sel, u.Select(e.heapGet(e.entry.clone(), n, e.heapSorts[n]), x))), []*Term{sel})
					})
				}
				add("frame0:"+n, func(h *hdr) *Term {
					hh, ok := h.st.heap[n]
					if !ok || hh == h0 {
						return u.True
					}
					x := u.BVar("x", SInt)
					sel := u.Select(hh, x)
					return u.Forall([]*Term{x}, u.Imp(u.Lt(e.birth(x), e.entry.top), u.Eq(sel, u.Select(h0, x))), []*Term{sel})
				})
				continue
			}
			var as []*Term
			for a := range m.inv {
				as = append(as, a)
			}
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			_, vs := h0.sort.elem()
			for _, a := range as {
				a := a
				nm := fmt.Sprintf("%s[%d]", n, a.id)
				v0 := u.Select(h0, a)
				switch {
				case vs == SInt:
					if strings.HasSuffix(n, ".cap") || strings.HasSuffix(n, ".ref") || strings.HasSuffix(n, ".tag") || strings.HasSuffix(n, ".pay") || e.isRefHeap(n) {
						add(nm+"==init", func(h *hdr) *Term { return u.Eq(u.Select(e.heapGet(h.st, n, h0.sort), a), v0) })
						if strings.HasSuffix(n, ".tag") {
							add(nm+"!=0", func(h *hdr) *Term { return u.Not(u.Eq(u.Select(e.heapGet(h.st, n, h0.sort), a), u.I(0))) })
						}
						continue
					}
					addAcc(nm, "cell", func(h *hdr) *Term { return u.Select(e.heapGet(h.st, n, h0.sort), a) })
				case vs == SBool || vs == SStr:
					add(nm+"==init", func(h *hdr) *Term { return u.Eq(u.Select(e.heapGet(h.st, n, h0.sort), a), v0) })
				case vs.isArr() && strings.HasPrefix(n, "E$"):
					for li, l := range e.unitLocs() {
						if l.heap == n && l.lo != nil && l.addr == a {
							l := l
							add(fmt.Sprintf("%s.outside%d", nm, li), func(h *hdr) *Term {
								i := u.BVar("i", SInt)
								sel := u.Select(u.Select(e.heapGet(h.st, n, h0.sort), a), i)
								return u.Forall([]*Term{i}, u.Or(u.And(u.Le(l.lo, i), u.Lt(i, l.hi)), u.Eq(sel, u.Select(v0, i))), []*Term{sel})
							})
						}
					}
				case n == "W.buf":
					add(nm+".prefix", func(h *hdr) *Term {
						l0 := u.Select(e.heapGet(en.st, "W.len", arr(SInt, SInt)), a)
						i := u.BVar("i", SInt)
						sel := u.Select(u.Select(e.heapGet(h.st, n, h0.sort), a), i)
						return u.Forall([]*Term{i}, u.Imp(u.And(u.Le(u.I(0), i), u.Lt(i, l0)), u.Eq(sel, u.Select(v0, i))), []*Term{sel})
					})
				}
			}
		}
		if e.unit.noArith {
			acc = nil
		}
		for _, x := range acc {
			x := x
			add(x.name+">=init", func(h *hdr) *Term { return u.Le(x.init, x.f(h)) })
			add(x.name+"<=init", func(h *hdr) *Term { return u.Le(x.f(h), x.init) })
			if !(x.init.lo != nil && x.init.lo.Sign() >= 0) || true {
				add(x.name+">=0", func(h *hdr) *Term { return u.Le(u.I(0), x.f(h)) })
			}
			for t := range cmp {
				t := t
				if t == x.init {
					continue
				}
				add(fmt.Sprintf("%s<=t%d", x.name, t.id), func(h *hdr) *Term { return u.Le(x.f(h), t) })
				add(fmt.Sprintf("%s>=t%d", x.name, t.id), func(h *hdr) *Term { return u.Le(t, x.f(h)) })
				if x.kind == "int" && x.init.isInt() && x.init.num.Sign() < 0 {
					add(fmt.Sprintf("%s<t%d", x.name, t.id), func(h *hdr) *Term { return u.Lt(x.f(h), t) })
				}
			}
		}
		if len(acc) <= 14 {
			for i := range acc {
				for j := i + 1; j < len(acc); j++ {
					x, y := acc[i], acc[j]
					add(x.name+"-"+y.name+"==init", func(h *hdr) *Term {
						return u.Eq(u.Sub(x.f(h), y.f(h)), u.Sub(x.init, y.init))
					})
					add(x.name+"+"+y.name+"==init", func(h *hdr) *Term {
						return u.Eq(u.Add(x.f(h), y.f(h)), u.Add(x.init, y.init))
					})
					if x.kind == "len" && y.kind == "int" || x.kind == "int" && y.kind == "len" {
						add(x.name+"<="+y.name, func(h *hdr) *Term { return u.Le(x.f(h), y.f(h)) })
						add(y.name+"<="+x.name, func(h *hdr) *Term { return u.Le(y.f(h), x.f(h)) })
					}
				}
			}
		}
	}
	// contract templates
	for ti, c := range e.unit.Invs {
		for pi, x := range conjuncts(c.Expr) {
			d := c
			d.Expr = x
			d.Vars = nil
			for _, v := range c.Vars {
				if mentions(x, v.name) {
					d.Vars = append(d.Vars, v)
				}
			}
			d.Src = fmt.Sprintf("%d %s", pi, c.Src)
			e.instTemplates(ti, d, phis, fr, en, &cs)
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].key < cs[j].key })
	return cs
}

func conjuncts(x ast.Expr) []ast.Expr {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return conjuncts(n.X)
	case *ast.BinaryExpr:
		if n.Op == token.LAND {
			return append(conjuncts(n.X), conjuncts(n.Y)...)
		}
	}
	return []ast.Expr{x}
}

var aliveElems, _ = parseExpr("forall(k, 0, len(s), alive(s[k]))")

// holdsRefs reports whether a slice type has pointers or interfaces as elements.
func holdsRefs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	switch s.Elem().Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

func mentions(x ast.Expr, name string) (found bool) {
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == name {
			found = true
		}
		return !found
	})
	return
}

var pkgPrefix = regexp.MustCompile(`[\w/.-]+\.`)

// sameType matches a type named in a template, with or without package names.
func sameType(t types.Type, name string) bool {
	norm := func(s string) string { return strings.ReplaceAll(s, "byte", "uint8") }
	return norm(types.TypeString(t, func(*types.Package) string { return "" })) == norm(pkgPrefix.ReplaceAllString(name, ""))
}

func (e *Engine) isRefHeap(n string) bool { return e.refHeaps[n] }

func (e *Engine) instTemplates(ti int, c Clause, phis []*ssa.Phi, fr *Frame, en *hdr, cs *[]cand) {
	depth := fr.depth
	type opt struct {
		name string
		f    func(h *hdr) TV
	}
	var opts [][]opt
	for _, v := range c.Vars {
		var os []opt
		if v.typ == "strpos" {
			// position of a range over a string
			var keys []string
			for k := range en.st.heap {
				if strings.HasPrefix(k, "G$strpos$") {
					keys = append(keys, k)
				}
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				os = append(os, opt{k, func(h *hdr) TV {
					return TV{e.u.Select(e.heapGet(h.st, k, arr(SInt, SInt)), e.u.I(int64(depth))), tInt}
				}})
			}
		}
		for i, p := range phis {
			i, p := i, p
			switch v.typ {
			case "int":
				if basicInt(p.Type()) != nil {
					if t, ok := en.phi[i].(*Term); ok && t.isInt() && t.num.Sign() < 0 {
						os = append(os, opt{p.Name() + "+1", func(h *hdr) TV { return TV{e.u.AddI(h.phi[i].(*Term), 1), tInt} }})
					} else {
						os = append(os, opt{p.Name(), func(h *hdr) TV { return TV{h.phi[i], p.Type()} }})
					}
				}
			case "slice":
				if _, ok := p.Type().Underlying().(*types.Slice); ok {
					os = append(os, opt{p.Name(), func(h *hdr) TV { return TV{h.phi[i], p.Type()} }})
				}
			default:
				if tk := typeKey(p.Type()); tk == v.typ || tk == strings.ReplaceAll(v.typ, "byte", "uint8") || elemKey(p.Type()) == v.typ || sameType(p.Type(), v.typ) {
					os = append(os, opt{p.Name(), func(h *hdr) TV { return TV{h.phi[i], p.Type()} }})
				}
			}
		}
		if strings.HasPrefix(v.typ, "[]") || strings.HasPrefix(v.typ, "map[") || strings.HasPrefix(v.typ, "*") {
			// values computed before the loop
			isPhi := map[ssa.Value]bool{}
			for _, p := range phis {
				isPhi[p] = true
			}
			var vs []ssa.Value
			for x := range fr.vals {
				if !isPhi[x] && sameType(x.Type(), v.typ) {
					vs = append(vs, x)
				}
			}
			sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
			if len(vs) <= 6 {
				for _, x := range vs {
					x, val := x, fr.vals[x]
					os = append(os, opt{x.Name(), func(h *hdr) TV { return TV{val, x.Type()} }})
				}
			}
		}
		if len(os) == 0 {
			return
		}
		opts = append(opts, os)
	}
	idx := make([]int, len(opts))
	n := 0
	for {
		var sel []opt
		key := fmt.Sprintf("T:%d:%s", ti, c.Src)
		dup := false
		seen := map[string]bool{}
		for k, o := range opts {
			sel = append(sel, o[idx[k]])
			key += " " + c.Vars[k].name + "=" + o[idx[k]].name
			if seen[o[idx[k]].name] {
				dup = true
			}
			seen[o[idx[k]].name] = true
		}
		if !dup {
			sel := sel
			*cs = append(*cs, cand{key: key, tmpl: true, f: func(h *hdr) *Term {
				env := e.entryEnv(h.st)
				env.pre = en.st
				env.prev = map[string]TV{}
				for k, o := range sel {
					env.vars[c.Vars[k].name] = o.f(h)
					env.prev[c.Vars[k].name] = o.f(en)
				}
				return e.evalBool(c.Expr, env)
			}})
		}
		n++
		if n > 400 {
			return
		}
		k := len(idx) - 1
		for ; k >= 0; k-- {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			return
		}
	}
}

// entryEnv: names of the unit's parameters (entry values), current state st.
func (e *Engine) entryEnv(st *State) *Env {
	env := &Env{e: e, st: st, old: e.entry, vars: map[string]TV{}, c: e.unit}
	for k, v := range e.envVars {
		env.vars[k] = v
	}
	return env
}

// unitLocs: the memory the unit's contract allows to change.
func (e *Engine) unitLocs() []modLoc {
	env := e.entryEnv(e.entry)
	var locs []modLoc
	for _, m := range e.unit.Modifies {
		if m.Src != "*" {
			locs = append(locs, e.modLocs(m, env)...)
		}
	}
	return locs
}

func heapLocs(locs []modLoc, n string) (out []*Term) {
	for _, l := range locs {
		if l.heap == n && !l.any && l.lo == nil {
			out = append(out, l.addr)
		}
	}
	return
}

func rowLocs(locs []modLoc) (out []*Term) {
	seen := map[*Term]bool{}
	for _, l := range locs {
		if strings.HasPrefix(l.heap, "E$") && !l.any && l.lo == nil && !seen[l.addr] {
			seen[l.addr] = true
			out = append(out, l.addr)
		}
	}
	return
}
