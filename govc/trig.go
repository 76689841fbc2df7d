package main

// Hypotheses: universally quantified formulas get explicit instantiation
// patterns. A term such as row[off+i] is turned into a pattern by shifting
// the bound variable, since solvers do not match patterns modulo arithmetic.

func (e *Engine) prepHyp(t *Term) *Term {
	u := e.u
	switch t.op {
	case "and":
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = e.prepHyp(a)
			ch = ch || na[i] != a
		}
		if ch {
			return u.And(na...)
		}
	case "=>":
		c := e.prepHyp(t.args[1])
		if c != t.args[1] {
			return u.Imp(t.args[0], c)
		}
	case "forall":
		if len(t.trig) > 0 || len(t.bvars) != 1 || t.bvars[0].sort != SInt || t.bound {
			return t
		}
		return e.shift1(t)
	}
	return t
}

func (e *Engine) shift1(t *Term) *Term {
	u := e.u
	b := t.bvars[0]
	type grp struct {
		rest  *Term
		terms []*Term
	}
	var gs []*grp
	seen := map[*Term]bool{}
	contains := func(x *Term) bool { return x.bound && e.mentions(x, b) }
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] || !x.bound {
			return
		}
		seen[x] = true
		for _, a := range x.args {
			walk(a)
		}
		if x.bvars != nil {
			return
		}
		if x.op != "select" && !x.fn {
			return
		}
		// exactly one argument mentions b, and linearly with coefficient 1
		var idx *Term
		for _, a := range x.args {
			if contains(a) {
				if idx != nil {
					return
				}
				idx = a
			} else if a.bound {
				return
			}
		}
		if idx == nil || idx.sort != SInt {
			return
		}
		l := u.toLin(idx)
		c, ok := l.co[b]
		if !ok || !c.IsInt64() || c.Int64() != 1 {
			return
		}
		delete(l.co, b)
		for k := range l.co {
			if k.bound {
				return
			}
		}
		rest := u.fromLin(l)
		for _, g := range gs {
			if g.rest == rest {
				g.terms = append(g.terms, x)
				return
			}
		}
		gs = append(gs, &grp{rest, []*Term{x}})
	}
	walk(t.args[0])
	if len(gs) == 0 {
		return t
	}
	var out []*Term
	for i, g := range gs {
		if i >= 4 {
			break
		}
		j := u.BVar("j", SInt)
		m := map[*Term]*Term{b: u.Sub(j, g.rest)}
		body := u.Subst(t.args[0], m)
		var tr [][]*Term
		for _, x := range g.terms {
			p := u.rawSubst(x, m)
			if p != nil {
				tr = append(tr, []*Term{p})
			}
		}
		if len(tr) == 0 {
			continue
		}
		out = append(out, u.Forall([]*Term{j}, body, tr...))
	}
	if len(out) == 0 {
		return t
	}
	return u.And(out...)
}

// rawSubst substitutes in the arguments only, keeping the head symbol.
func (u *U) rawSubst(x *Term, m map[*Term]*Term) *Term {
	na := make([]*Term, len(x.args))
	for i, a := range x.args {
		na[i] = u.Subst(a, m)
	}
	return u.mk(&Term{op: x.op, args: na, sort: x.sort, fn: x.fn})
}

func (e *Engine) mentions(x, b *Term) bool {
	if x == b {
		return true
	}
	if !x.bound {
		return false
	}
	for _, a := range x.args {
		if e.mentions(a, b) {
			return true
		}
	}
	return false
}
