package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Strings: sort Str with length slen and bytes sat; constructors are
// simplified on the fly and carry ground/quantified facts for the solver.

var byteMax = big.NewInt(255)

func (e *Engine) strLit(s string) *Term {
	k := "lit$" + fmt.Sprintf("%x", s)
	t := e.u.Const(k, SStr)
	if _, ok := e.lits[t]; !ok {
		e.lits[t] = s
		e.u.addFact(t, e.u.Eq(e.u.App("slen", SInt, t), e.u.I(int64(len(s)))))
		e.u.addFact(t, e.u.Eq(e.u.App("litid", SInt, t), e.u.I(e.P.akind(k))))
		if len(s) <= 80 {
			for i := 0; i < len(s); i++ {
				e.u.addFact(t, e.u.Eq(e.u.App("sat", SInt, t, e.u.I(int64(i))), e.u.I(int64(s[i]))))
			}
		}
	}
	return t
}

func (e *Engine) litOf(t *Term) (string, bool) {
	s, ok := e.lits[t]
	return s, ok
}

func (e *Engine) strFacts(t *Term) {
	if t.bound {
		return
	}
	l := e.u.App("slen", SInt, t)
	e.u.typeRange(l, new(big.Int), maxLen)
}

func (e *Engine) strSym(t *Term) *Term {
	e.strFacts(t)
	return t
}

func (e *Engine) slen(s *Term) *Term {
	u := e.u
	if l, ok := e.litOf(s); ok {
		return u.I(int64(len(l)))
	}
	switch {
	case s.fn && s.op == "scat":
		return u.Add(e.slen(s.args[0]), e.slen(s.args[1]))
	case s.fn && s.op == "ssub":
		return u.Sub(s.args[2], s.args[1])
	case s.fn && s.op == "sofb":
		return s.args[2]
	case s.op == "ite":
		return u.Ite(s.args[0], e.slen(s.args[1]), e.slen(s.args[2]))
	}
	return u.typeRange(u.App("slen", SInt, s), new(big.Int), maxLen)
}

func (e *Engine) sat(s, i *Term) *Term {
	u := e.u
	if l, ok := e.litOf(s); ok && i.isInt() && i.num.IsInt64() {
		if n := i.num.Int64(); n >= 0 && n < int64(len(l)) {
			return u.I(int64(l[n]))
		}
	}
	switch {
	case s.fn && s.op == "ssub":
		return e.sat(s.args[0], u.Add(s.args[1], i))
	case s.fn && s.op == "sofb":
		return u.typeRange(u.Select(s.args[0], u.Add(s.args[1], i)), new(big.Int), byteMax)
	case s.fn && s.op == "scat":
		n := e.slen(s.args[0])
		c := u.Lt(i, n)
		if c == u.True {
			return e.sat(s.args[0], i)
		}
		if c == u.False {
			return e.sat(s.args[1], u.Sub(i, n))
		}
		return u.Ite(c, e.sat(s.args[0], i), e.sat(s.args[1], u.Sub(i, n)))
	case s.op == "ite":
		return u.Ite(s.args[0], e.sat(s.args[1], i), e.sat(s.args[2], i))
	}
	return u.typeRange(u.App("sat", SInt, s, i), new(big.Int), byteMax)
}

// derived attaches length and content facts to a constructed string.
func (e *Engine) derived(t *Term) *Term {
	u := e.u
	if len(t.facts) > 0 {
		return t
	}
	if t.bound {
		if t.op == "ssub" || t.op == "scat" {
			e.boundStr(t)
		}
		return t
	}
	raw := u.App("slen", SInt, t)
	in := u.True
	if t.op == "ssub" {
		// a specification may name a slice that is out of range
		in = u.And(u.Le(u.I(0), t.args[1]), u.Le(t.args[1], t.args[2]), u.Le(t.args[2], e.slen(t.args[0])))
	}
	u.addFact(t, u.Imp(in, u.Eq(raw, e.slen(t))))
	i := u.BVar("i", SInt)
	rs := u.App("sat", SInt, t, i)
	u.addFact(t, u.Imp(in, u.Forall([]*Term{i}, u.Imp(u.And(u.Le(u.I(0), i), u.Lt(i, e.slen(t))), u.Eq(rs, e.sat(t, i))), []*Term{rs})))
	return t
}

// boundStr describes slices and concatenations under a quantifier.
func (e *Engine) boundStr(t *Term) {
	u := e.u
	s, i := u.BVar("bs", SStr), u.BVar("bi", SInt)
	if t.op == "ssub" {
		lo, hi := u.BVar("blo", SInt), u.BVar("bhi", SInt)
		x := u.App("ssub", SStr, s, lo, hi)
		in := u.And(u.Le(u.I(0), lo), u.Le(lo, hi), u.Le(hi, u.App("slen", SInt, s)))
		u.addFact(t, u.Forall([]*Term{s, lo, hi}, u.Imp(in, u.Eq(u.App("slen", SInt, x), u.Sub(hi, lo))), []*Term{x}))
		xi := u.App("sat", SInt, x, i)
		u.addFact(t, u.Forall([]*Term{s, lo, hi, i}, u.Imp(u.And(in, u.Le(u.I(0), i), u.Lt(i, u.Sub(hi, lo))), u.Eq(xi, u.App("sat", SInt, s, u.Add(lo, i)))), []*Term{xi}))
		return
	}
	s2 := u.BVar("bs2", SStr)
	x := u.App("scat", SStr, s, s2)
	n := u.App("slen", SInt, s)
	u.addFact(t, u.Forall([]*Term{s, s2}, u.Eq(u.App("slen", SInt, x), u.Add(n, u.App("slen", SInt, s2))), []*Term{x}))
	xi := u.App("sat", SInt, x, i)
	u.addFact(t, u.Forall([]*Term{s, s2, i}, u.Eq(xi, u.Ite(u.Lt(i, n), u.App("sat", SInt, s, i), u.App("sat", SInt, s2, u.Sub(i, n)))), []*Term{xi}))
}

func (e *Engine) scat(a, b *Term) *Term {
	la, oka := e.litOf(a)
	lb, okb := e.litOf(b)
	if oka && okb {
		return e.strLit(la + lb)
	}
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	return e.derived(e.u.App("scat", SStr, a, b))
}

func (e *Engine) ssub(s, lo, hi *Term) *Term {
	u := e.u
	if l, ok := e.litOf(s); ok && lo.isInt() && hi.isInt() {
		a, b := lo.num.Int64(), hi.num.Int64()
		if 0 <= a && a <= b && b <= int64(len(l)) {
			return e.strLit(l[a:b])
		}
	}
	if lo.isInt() && lo.num.Sign() == 0 && hi == e.slen(s) {
		return s
	}
	if s.fn && s.op == "ssub" {
		return e.ssub(s.args[0], u.Add(s.args[1], lo), u.Add(s.args[1], hi))
	}
	if s.fn && s.op == "sofb" {
		return e.sofb(s.args[0], u.Add(s.args[1], lo), u.Sub(hi, lo))
	}
	return e.derived(u.App("ssub", SStr, s, lo, hi))
}

func (e *Engine) sofb(row, off, n *Term) *Term {
	if row.fn && row.op == "sarr" && off.isInt() && off.num.Sign() == 0 {
		if n == e.slen(row.args[0]) {
			return row.args[0]
		}
	}
	return e.derived(e.u.App("sofb", SStr, row, off, n))
}

func (e *Engine) strEq(a, b *Term) *Term {
	u := e.u
	if a == b {
		return u.True
	}
	la, oka := e.litOf(a)
	lb, okb := e.litOf(b)
	if oka && okb {
		return u.B(la == lb)
	}
	if okb {
		a, b, la, oka = b, a, lb, okb
	}
	if oka && len(la) <= 40 {
		// expand against a literal
		c := u.Eq(e.slen(b), u.I(int64(len(la))))
		for i := 0; i < len(la); i++ {
			c = u.And(c, u.Eq(e.sat(b, u.I(int64(i))), u.I(int64(la[i]))))
		}
		if !b.bound {
			// tie to real equality so congruence works too
			q := u.Eq(a, b)
			u.addFact(b, u.Imp(c, q))
			u.addFact(b, u.Imp(q, c))
		}
		return c
	}
	q := u.Eq(a, b)
	if q.op == "=" && !q.bound {
		x, y := q.args[0], q.args[1]
		k := u.App("sdiff", SInt, x, y)
		u.addFact(q, u.Or(q, u.Not(u.Eq(e.slen(x), e.slen(y))),
			u.And(u.Le(u.I(0), k), u.Lt(k, e.slen(x)), u.Not(u.Eq(e.sat(x, k), e.sat(y, k))))))
		u.addFact(q, u.Imp(q, u.Eq(e.slen(x), e.slen(y))))
		for _, z := range []*Term{x, y} {
			if z.fn && z.op == "scat" {
				// name the byte directly, so that other strings known to be equal speak of it
				u.addFact(q, u.Eq(u.App("sat", SInt, z, k), e.sat(z, k)))
				u.addFact(q, u.Eq(u.App("slen", SInt, z), e.slen(z)))
			}
		}
		e.strFacts(x)
		e.strFacts(y)
	}
	return q
}

// attachStr gives the string terms of an instantiated formula the facts that
// could not be attached while they mentioned a bound variable.
func (e *Engine) attachStr(t *Term, seen map[*Term]bool) {
	if seen[t] || t.bound && len(t.args) == 0 {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		e.attachStr(a, seen)
	}
	if t.bound {
		return
	}
	if t.sort == SStr && t.fn && (t.op == "ssub" || t.op == "scat" || t.op == "sofb") {
		e.derived(t)
	}
	if t.fn && strings.HasPrefix(t.op, "ea$") {
		e.addrFacts(t)
	}
	if t.op == "=" && t.args[0].sort == SStr {
		e.strEq(t.args[0], t.args[1])
	}
}

func (e *Engine) byteRow(st *State, ref *Term) *Term {
	return e.u.Select(e.heapGet(st, "E$uint8", arr(SInt, sArrII)), ref)
}

func (e *Engine) bytesToStr(st *State, s SliceV) *Term {
	return e.sofb(e.byteRow(st, s.ref), s.off, s.len)
}

func (e *Engine) sarr(s *Term) *Term {
	t := e.u.App("sarr", sArrII, s)
	if len(t.facts) == 0 && !t.bound {
		i := e.u.BVar("i", SInt)
		raw := e.u.mk(&Term{op: "select", args: []*Term{t, i}, sort: SInt})
		e.u.addFact(t, e.u.Forall([]*Term{i}, e.u.Eq(raw, e.sat(s, i)), []*Term{raw}))
	}
	return t
}

func (e *Engine) strToBytes(st *State, s *Term) SliceV {
	ref := e.alloc(st, "arr$uint8")
	e.heapSet(st, "E$uint8", arr(SInt, sArrII), ref, e.sarr(s))
	n := e.slen(s)
	c := e.u.typeRange(e.u.Fresh("cap", SInt), new(big.Int), maxLen)
	e.assume(st, e.u.Le(n, c))
	return SliceV{ref, e.u.I(0), n, c}
}

// acopy: row dst with n elements of src (from so) copied to position do.
func (e *Engine) acopy(dst, do, src, so, n *Term) *Term {
	u := e.u
	if n.isInt() && n.num.IsInt64() && n.num.Int64() <= 48 {
		r := dst
		for k := int64(0); k < n.num.Int64(); k++ {
			r = u.Store(r, u.AddI(do, k), u.Select(src, u.AddI(so, k)))
		}
		return r
	}
	t := u.App("acopy$"+string(dst.sort), dst.sort, dst, do, src, so, n)
	if len(t.facts) == 0 && !t.bound {
		i := u.BVar("i", SInt)
		raw := u.mk(&Term{op: "select", args: []*Term{t, i}, sort: elemSort(dst.sort)})
		in := u.And(u.Le(do, i), u.Lt(i, u.Add(do, n)))
		u.addFact(t, u.Forall([]*Term{i}, u.Eq(raw, u.Ite(in, u.Select(src, u.Add(so, u.Sub(i, do))), u.Select(dst, i))), []*Term{raw}))
	}
	return t
}

func elemSort(s Sort) Sort { _, v := s.elem(); return v }
