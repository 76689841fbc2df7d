package main

// Hash-consed SMT terms with light simplification, interval bounds and
// ground facts attached to terms.

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "Str"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

var (
	sArrII = arr(SInt, SInt)
)

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

// elem returns key and value sorts of an array sort.
func (s Sort) elem() (Sort, Sort) {
	in := string(s)[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return Sort(in[:i]), Sort(in[i+1:])
			}
		}
	}
	panic("bad array sort " + s)
}

type Term struct {
	id    int
	op    string // "#" int literal, "true"/"false", symbol name, or operator
	args  []*Term
	sort  Sort
	num   *big.Int
	lo    *big.Int // conservative bounds (nil = unbounded)
	hi    *big.Int
	facts []*Term // ground axioms to assert whenever this term occurs
	bvars []*Term // for quantifiers
	trig  [][]*Term
	bound bool // a bound variable occurs free in this term
	isSym bool // 0-ary symbol (declared constant) or bound var
	fn    bool // uninterpreted function application
	mark  int  // creation order of newest symbol inside (for loop invariance)
	dep   int  // dag depth
}

// Universe of terms; one per worker (not shared between goroutines).
type U struct {
	selMemo  map[[2]*Term]*Term
	tab      map[string]*Term
	next     int
	symctr   map[string]int
	True     *Term
	False    *Term
	funs     map[string]string // declared function name -> signature
	funFacts map[string]*Term  // what holds of every application
	now      int

	satHook func(s, i *Term) *Term
}

func newU() *U {
	u := &U{selMemo: map[[2]*Term]*Term{}, tab: map[string]*Term{}, symctr: map[string]int{}, funs: map[string]string{}, funFacts: map[string]*Term{}}
	u.True = u.mk(&Term{op: "true", sort: SBool})
	u.False = u.mk(&Term{op: "false", sort: SBool})
	return u
}

func (u *U) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	if t.num != nil {
		sb.WriteString(t.num.String())
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.bvars != nil {
		for _, b := range t.bvars {
			sb.WriteByte(';')
			sb.WriteString(b.op)
		}
		for _, tr := range t.trig {
			sb.WriteByte('!')
			for _, x := range tr {
				sb.WriteByte('.')
				sb.WriteString(strconv.Itoa(x.id))
			}
		}
	}
	k := sb.String()
	if o, ok := u.tab[k]; ok {
		return o
	}
	u.next++
	t.id = u.next
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.mark > t.mark {
			t.mark = a.mark
		}
		if a.dep >= t.dep {
			t.dep = a.dep + 1
		}
	}
	if t.bvars != nil {
		t.bound = u.freeBound(t)
	}
	u.tab[k] = t
	return t
}

// freeBound reports whether quantifier t still has free bound variables.
func (u *U) freeBound(t *Term) bool {
	in := map[*Term]bool{}
	for _, b := range t.bvars {
		in[b] = true
	}
	seen := map[*Term]bool{}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if seen[x] || !x.bound {
			return false
		}
		seen[x] = true
		if x.isSym && x.bound {
			return !in[x]
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t.args[0])
}

func (u *U) I(n int64) *Term      { return u.Big(big.NewInt(n)) }
func (u *U) Big(n *big.Int) *Term { return u.mk(&Term{op: "#", num: n, sort: SInt, lo: n, hi: n}) }
func (u *U) B(b bool) *Term {
	if b {
		return u.True
	}
	return u.False
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '$':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("P")
		case r == '/':
			b.WriteString("_")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

// Fresh makes a new symbol.
func (u *U) Fresh(name string, s Sort) *Term {
	name = sanitize(name)
	u.symctr[name]++
	n := fmt.Sprintf("%s!%d", name, u.symctr[name])
	t := u.mk(&Term{op: n, sort: s, isSym: true})
	u.now++
	t.mark = u.now
	return t
}

// Const is a named symbol with no counter (globals); never considered new.
func (u *U) Const(name string, s Sort) *Term {
	return u.mk(&Term{op: sanitize(name), sort: s, isSym: true})
}

func (u *U) BVar(name string, s Sort) *Term {
	u.symctr["bv"]++
	t := &Term{op: fmt.Sprintf("%s?%d", sanitize(name), u.symctr["bv"]), sort: s, isSym: true}
	t = u.mk(t)
	t.bound = true
	return t
}

// App applies an uninterpreted function.
func (u *U) App(f string, s Sort, args ...*Term) *Term {
	if len(args) == 0 {
		return u.Const(f, s)
	}
	f = sanitize(f)
	sig := ""
	for _, a := range args {
		sig += string(a.sort) + " "
	}
	sig = "(" + strings.TrimSpace(sig) + ") " + string(s)
	if o, ok := u.funs[f]; ok && o != sig {
		panic("function " + f + " redeclared: " + o + " vs " + sig)
	}
	u.funs[f] = sig
	return u.mk(&Term{op: f, args: args, sort: s, fn: true})
}

func (t *Term) isInt() bool { return t.op == "#" }

func (u *U) addFact(t *Term, f *Term) {
	if f == u.True {
		return
	}
	for _, x := range t.facts {
		if x == f {
			return
		}
	}
	t.facts = append(t.facts, f)
}

// typeRange attaches bounds lo..hi and the corresponding fact.
func (u *U) typeRange(t *Term, lo, hi *big.Int) *Term {
	if t.isInt() {
		return t
	}
	if t.lo == nil || lo != nil && t.lo.Cmp(lo) < 0 {
		t.lo = lo
	}
	if t.hi == nil || hi != nil && t.hi.Cmp(hi) > 0 {
		t.hi = hi
	}
	if lo != nil {
		u.addFact(t, u.mk(&Term{op: "<=", args: []*Term{u.Big(lo), t}, sort: SBool}))
	}
	if hi != nil {
		u.addFact(t, u.mk(&Term{op: "<=", args: []*Term{t, u.Big(hi)}, sort: SBool}))
	}
	return t
}

// ---- linear arithmetic normal form ----

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func (u *U) toLin(t *Term) lin {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	u.accLin(&l, t, big.NewInt(1))
	return l
}

func (u *U) accLin(l *lin, t *Term, k *big.Int) {
	switch {
	case t.isInt():
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.num))
	case t.op == "+":
		for _, a := range t.args {
			u.accLin(l, a, k)
		}
	case t.op == "*" && len(t.args) == 2 && t.args[0].isInt():
		u.accLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].num))
	default:
		o := l.co[t]
		if o == nil {
			o = new(big.Int)
		}
		n := new(big.Int).Add(o, k)
		if n.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = n
		}
	}
}

func (u *U) fromLin(l lin) *Term {
	if len(l.co) == 0 {
		return u.Big(l.c)
	}
	keys := make([]*Term, 0, len(l.co))
	for k := range l.co {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	var args []*Term
	for _, k := range keys {
		c := l.co[k]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, k)
		} else {
			args = append(args, u.mulc(c, k))
		}
	}
	if l.c.Sign() != 0 {
		args = append(args, u.Big(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	t := u.mk(&Term{op: "+", args: args, sort: SInt})
	if t.lo == nil && t.hi == nil {
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range args {
			if lo != nil && a.lo != nil {
				lo = new(big.Int).Add(lo, a.lo)
			} else {
				lo = nil
			}
			if hi != nil && a.hi != nil {
				hi = new(big.Int).Add(hi, a.hi)
			} else {
				hi = nil
			}
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

func (u *U) mulc(c *big.Int, k *Term) *Term {
	t := u.mk(&Term{op: "*", args: []*Term{u.Big(c), k}, sort: SInt})
	if t.lo == nil && t.hi == nil {
		lo, hi := k.lo, k.hi
		if c.Sign() < 0 {
			lo, hi = hi, lo
		}
		if lo != nil {
			t.lo = new(big.Int).Mul(c, lo)
		}
		if hi != nil {
			t.hi = new(big.Int).Mul(c, hi)
		}
	}
	return t
}

func (u *U) Add(a ...*Term) *Term {
	l := lin{new(big.Int), map[*Term]*big.Int{}}
	for _, x := range a {
		u.accLin(&l, x, big.NewInt(1))
	}
	return u.fromLin(l)
}
func (u *U) Sub(a, b *Term) *Term {
	l := u.toLin(a)
	u.accLin(&l, b, big.NewInt(-1))
	return u.fromLin(l)
}
func (u *U) Neg(a *Term) *Term { return u.Sub(u.I(0), a) }
func (u *U) AddI(a *Term, n int64) *Term {
	return u.Add(a, u.I(n))
}
func (u *U) Mul(a, b *Term) *Term {
	if a.isInt() {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		u.accLin(&l, b, a.num)
		return u.fromLin(l)
	}
	if b.isInt() {
		return u.Mul(b, a)
	}
	if b.id < a.id {
		a, b = b, a
	}
	t := u.mk(&Term{op: "*", args: []*Term{a, b}, sort: SInt})
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil && t.lo == nil {
		ps := []*big.Int{}
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				ps = append(ps, new(big.Int).Mul(x, y))
			}
		}
		lo, hi := ps[0], ps[0]
		for _, p := range ps {
			if p.Cmp(lo) < 0 {
				lo = p
			}
			if p.Cmp(hi) > 0 {
				hi = p
			}
		}
		t.lo, t.hi = lo, hi
	}
	return t
}

// Div and Mod are SMT-LIB (Euclidean) for positive constant divisors.
func (u *U) Div(a, b *Term) *Term {
	if b.isInt() && b.num.Sign() > 0 {
		if a.isInt() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.num, b.num, m)
			return u.Big(q)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
			return u.I(0)
		}
		// (c*x + d) div b  with c divisible: split out multiples of b
		l := u.toLin(a)
		rest := lin{new(big.Int), map[*Term]*big.Int{}}
		out := lin{new(big.Int), map[*Term]*big.Int{}}
		for k, c := range l.co {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(c, b.num, m)
			if m.Sign() == 0 {
				out.co[k] = q
			} else {
				rest.co[k] = c
			}
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(l.c, b.num, m)
		out.c = q
		rest.c = m
		if len(out.co) > 0 || out.c.Sign() != 0 {
			return u.Add(u.fromLin(out), u.Div(u.fromLin(rest), b))
		}
		t := u.mk(&Term{op: "div", args: []*Term{a, b}, sort: SInt})
		if t.lo == nil && a.lo != nil {
			t.lo = new(big.Int).Div(a.lo, b.num)
		}
		if t.hi == nil && a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, b.num)
		}
		return t
	}
	t := u.mk(&Term{op: "div", args: []*Term{a, b}, sort: SInt})
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 && t.lo == nil {
		t.lo = new(big.Int)
		t.hi = a.hi
	}
	u.nlDivFacts(a, b)
	return t
}

func (u *U) Mod(a, b *Term) *Term {
	if b.isInt() && b.num.Sign() > 0 {
		if a.isInt() {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(a.num, b.num, m)
			return u.Big(m)
		}
		if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.num) < 0 {
			return a
		}
		// drop multiples of b
		l := u.toLin(a)
		ch := false
		for k, c := range l.co {
			q, m := new(big.Int), new(big.Int)
			q.DivMod(c, b.num, m)
			if q.Sign() != 0 {
				ch = true
				if m.Sign() == 0 {
					delete(l.co, k)
				} else {
					l.co[k] = m
				}
			}
		}
		q, m := new(big.Int), new(big.Int)
		q.DivMod(l.c, b.num, m)
		if q.Sign() != 0 {
			ch = true
			l.c = m
		}
		if ch {
			return u.Mod(u.fromLin(l), b)
		}
		if a.op == "mod" && a.args[1] == b {
			return a
		}
		t := u.mk(&Term{op: "mod", args: []*Term{a, b}, sort: SInt})
		if t.lo == nil {
			t.lo = new(big.Int)
			t.hi = new(big.Int).Sub(b.num, big.NewInt(1))
		}
		return t
	}
	t := u.mk(&Term{op: "mod", args: []*Term{a, b}, sort: SInt})
	if b.lo != nil && b.lo.Sign() > 0 && t.lo == nil {
		t.lo = new(big.Int)
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
		}
	}
	u.nlDivFacts(a, b)
	return t
}

// nlDivFacts adds the defining facts of division by a symbolic divisor in a
// form the linear core can use.
func (u *U) nlDivFacts(a, b *Term) {
	if a.bound || b.bound {
		return
	}
	d := u.mk(&Term{op: "div", args: []*Term{a, b}, sort: SInt})
	m := u.mk(&Term{op: "mod", args: []*Term{a, b}, sort: SInt})
	if len(d.facts) > 0 {
		return
	}
	pos := u.Lt(u.I(0), b)
	prod := u.Mul(b, d)
	f := u.Imp(pos, u.And(u.Eq(a, u.Add(prod, m)), u.Le(u.I(0), m), u.Lt(m, b),
		u.Imp(u.Le(u.I(0), a), u.And(u.Le(u.I(0), d), u.Le(d, a), u.Le(prod, a)))))
	u.addFact(d, f)
	u.addFact(m, f)
}

// ---- booleans ----

func (u *U) Not(a *Term) *Term {
	switch a.op {
	case "true":
		return u.False
	case "false":
		return u.True
	case "not":
		return a.args[0]
	case "<=":
		return u.Lt(a.args[1], a.args[0])
	case "<":
		return u.Le(a.args[1], a.args[0])
	}
	return u.mk(&Term{op: "not", args: []*Term{a}, sort: SBool})
}

func (u *U) And(a ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range a {
		if x == nil || x == u.True {
			continue
		}
		if x == u.False {
			return u.False
		}
		xs := []*Term{x}
		if x.op == "and" {
			xs = x.args
		}
		for _, y := range xs {
			if !seen[y] {
				seen[y] = true
				out = append(out, y)
			}
		}
	}
	for _, x := range out {
		if seen[u.Not(x)] {
			return u.False
		}
	}
	if len(out) == 0 {
		return u.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return u.mk(&Term{op: "and", args: out, sort: SBool})
}

func (u *U) Or(a ...*Term) *Term {
	var n []*Term
	for _, x := range a {
		n = append(n, u.Not(x))
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range a {
		if x == u.False {
			continue
		}
		if x == u.True {
			return u.True
		}
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, x := range n {
		if seen[x] {
			return u.True
		}
	}
	if len(out) == 0 {
		return u.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return u.mk(&Term{op: "or", args: out, sort: SBool})
}

func (u *U) Imp(a, b *Term) *Term {
	if a == u.True {
		return b
	}
	if a == u.False || b == u.True || a == b {
		return u.True
	}
	if b == u.False {
		return u.Not(a)
	}
	return u.mk(&Term{op: "=>", args: []*Term{a, b}, sort: SBool})
}

func (u *U) cmpConst(a, b *Term) (int, bool) { // sign of a-b if constant
	d := u.Sub(a, b)
	if d.isInt() {
		return d.num.Sign(), true
	}
	return 0, false
}

func (u *U) Le(a, b *Term) *Term {
	d := u.Sub(a, b)
	if d.hi != nil && d.hi.Sign() <= 0 {
		return u.True
	}
	if d.lo != nil && d.lo.Sign() > 0 {
		return u.False
	}
	return u.mk(&Term{op: "<=", args: []*Term{a, b}, sort: SBool})
}
func (u *U) Lt(a, b *Term) *Term {
	d := u.Sub(a, b)
	if d.hi != nil && d.hi.Sign() < 0 {
		return u.True
	}
	if d.lo != nil && d.lo.Sign() >= 0 {
		return u.False
	}
	return u.mk(&Term{op: "<", args: []*Term{a, b}, sort: SBool})
}

func (u *U) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", u.str(a), a.sort, u.str(b), b.sort))
	}
	if a == b {
		return u.True
	}
	if a.sort == SBool {
		if a == u.True {
			return b
		}
		if b == u.True {
			return a
		}
		if a == u.False {
			return u.Not(b)
		}
		if b == u.False {
			return u.Not(a)
		}
	}
	if a.sort == SInt {
		d := u.Sub(a, b)
		if d.isInt() {
			return u.B(d.num.Sign() == 0)
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return u.False
		}
	}
	if b.id < a.id {
		a, b = b, a
	}
	return u.mk(&Term{op: "=", args: []*Term{a, b}, sort: SBool})
}

func (u *U) Ite(c, a, b *Term) *Term {
	if c == u.True {
		return a
	}
	if c == u.False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == u.True {
			return u.Or(c, b)
		}
		if a == u.False {
			return u.And(u.Not(c), b)
		}
		if b == u.True {
			return u.Imp(c, a)
		}
		if b == u.False {
			return u.And(c, a)
		}
	}
	if a.sort == SInt && !a.isInt() && !b.isInt() {
		if d := u.Sub(a, b); d.lo != nil && d.hi != nil {
			return u.Add(b, u.Ite(c, d, u.I(0)))
		}
	}
	t := u.mk(&Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort})
	if a.sort == SInt && t.lo == nil && t.hi == nil {
		if a.lo != nil && b.lo != nil {
			t.lo = minB(a.lo, b.lo)
		}
		if a.hi != nil && b.hi != nil {
			t.hi = maxB(a.hi, b.hi)
		}
	}
	return t
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

func (u *U) Select(a, i *Term) *Term {
	k, v := a.sort.elem()
	if k != i.sort {
		panic(fmt.Sprintf("select sort mismatch %s[%s:%s]", a.sort, u.str(i), i.sort))
	}
	for a.op == "store" {
		j := a.args[1]
		if i == j {
			return a.args[2]
		}
		if u.distinct(i, j) {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" {
		key := [2]*Term{a, i}
		if r, ok := u.selMemo[key]; ok {
			return r
		}
		x, y := u.Select(a.args[1], i), u.Select(a.args[2], i)
		r := u.mk(&Term{op: "select", args: []*Term{a, i}, sort: v})
		if x == y {
			r = x
		} else if !v.isArr() && (x.op != "select" || y.op != "select") {
			r = u.Ite(a.args[0], x, y)
		}
		u.selMemo[key] = r
		return r
	}
	if a.fn && a.op == "sarr" && u.satHook != nil {
		return u.satHook(a.args[0], i)
	}
	if a.fn && strings.HasPrefix(a.op, "acopy$") {
		dst, do, src, so, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
		d := u.Sub(i, do)
		if d.hi != nil && d.hi.Sign() < 0 {
			return u.Select(dst, i)
		}
		dn := u.Sub(d, n)
		if dn.lo != nil && dn.lo.Sign() >= 0 {
			return u.Select(dst, i)
		}
		if d.lo != nil && d.lo.Sign() >= 0 && dn.hi != nil && dn.hi.Sign() < 0 {
			return u.Select(src, u.Add(so, d))
		}
	}
	return u.mk(&Term{op: "select", args: []*Term{a, i}, sort: v})
}

// distinct: syntactically known different.
func (u *U) distinct(i, j *Term) bool {
	if i.sort == SInt {
		d := u.Sub(i, j)
		if d.isInt() && d.num.Sign() != 0 {
			return true
		}
		if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
			return true
		}
	}
	if isAlloc(i) && isAlloc(j) {
		return i != j
	}
	if i.fn && j.fn && i.op != j.op && isAddrFn(i.op) && isAddrFn(j.op) {
		return true
	}
	if i.fn && j.fn && i.op == j.op && strings.HasPrefix(i.op, "fa$") {
		return u.distinct(i.args[0], j.args[0])
	}
	if i.fn && j.fn && i.op == j.op && strings.HasPrefix(i.op, "ea$") {
		return u.distinct(i.args[0], j.args[0]) || i.args[0] == j.args[0] && u.distinct(i.args[1], j.args[1])
	}
	if isAlloc(i) && j.fn && isAddrFn(j.op) || isAlloc(j) && i.fn && isAddrFn(i.op) {
		return true
	}
	if i.sort == SStr && strings.HasPrefix(i.op, "lit$") && strings.HasPrefix(j.op, "lit$") {
		return i != j
	}
	return false
}

func isAlloc(t *Term) bool {
	return t.isSym && (strings.HasPrefix(t.op, "new$") || strings.HasPrefix(t.op, "glob$"))
}
func isAddrFn(op string) bool { return strings.HasPrefix(op, "fa$") || strings.HasPrefix(op, "ea$") }

func (u *U) Store(a, i, v *Term) *Term {
	k, vs := a.sort.elem()
	if k != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store sort mismatch %s[%s]:=%s", a.sort, i.sort, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	return u.mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort})
}

func (u *U) ConstArr(s Sort, v *Term) *Term {
	return u.mk(&Term{op: "constarr", args: []*Term{v}, sort: s})
}

func (u *U) Forall(vars []*Term, body *Term, trig ...[]*Term) *Term {
	if body == u.True {
		return u.True
	}
	return u.mk(&Term{op: "forall", args: []*Term{body}, bvars: vars, trig: trig, sort: SBool})
}
func (u *U) Exists(vars []*Term, body *Term) *Term {
	if body == u.False {
		return u.False
	}
	return u.mk(&Term{op: "exists", args: []*Term{body}, bvars: vars, sort: SBool})
}

// ---- substitution (for instantiating templates) ----
func (u *U) Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.args) == 0 {
			return x
		}
		if r, ok := cache[x]; ok {
			return r
		}
		na := make([]*Term, len(x.args))
		ch := false
		for i, a := range x.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := x
		if ch {
			r = u.rebuild(x, na, func(tr [][]*Term) [][]*Term {
				var out [][]*Term
				for _, p := range tr {
					var q []*Term
					for _, y := range p {
						q = append(q, rec(y))
					}
					out = append(out, q)
				}
				return out
			})
		}
		cache[x] = r
		return r
	}
	return rec(t)
}

func (u *U) rebuild(x *Term, a []*Term, trf func([][]*Term) [][]*Term) *Term {
	switch x.op {
	case "+":
		return u.Add(a...)
	case "*":
		return u.Mul(a[0], a[1])
	case "div":
		return u.Div(a[0], a[1])
	case "mod":
		return u.Mod(a[0], a[1])
	case "not":
		return u.Not(a[0])
	case "and":
		return u.And(a...)
	case "or":
		return u.Or(a...)
	case "=>":
		return u.Imp(a[0], a[1])
	case "<=":
		return u.Le(a[0], a[1])
	case "<":
		return u.Lt(a[0], a[1])
	case "=":
		return u.Eq(a[0], a[1])
	case "ite":
		return u.Ite(a[0], a[1], a[2])
	case "select":
		return u.Select(a[0], a[1])
	case "store":
		return u.Store(a[0], a[1], a[2])
	case "forall":
		return u.Forall(x.bvars, a[0], trf(x.trig)...)
	case "exists":
		return u.Exists(x.bvars, a[0])
	}
	return u.mk(&Term{op: x.op, args: a, sort: x.sort, fn: x.fn, num: x.num})
}

// ---- printing ----

func (u *U) str(t *Term) string {
	var sb strings.Builder
	u.print(&sb, t, nil)
	s := sb.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func symName(s string) string {
	return "|" + s + "|"
}

func (u *U) print(sb *strings.Builder, t *Term, names map[*Term]string) {
	if names != nil {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	u.printTop(sb, t, names)
}

func (u *U) printTop(sb *strings.Builder, t *Term, names map[*Term]string) {
	switch {
	case t.op == "#":
		sb.WriteString(numStr(t.num))
	case t.op == "true" || t.op == "false":
		sb.WriteString(t.op)
	case t.isSym:
		sb.WriteString(symName(t.op))
	case t.op == "constarr":
		sb.WriteString("((as const " + string(t.sort) + ") ")
		u.print(sb, t.args[0], names)
		sb.WriteString(")")
	case t.op == "forall" || t.op == "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvars {
			fmt.Fprintf(sb, "(%s %s)", symName(b.op), b.sort)
		}
		sb.WriteString(") ")
		if len(t.trig) > 0 {
			sb.WriteString("(! ")
		}
		u.print(sb, t.args[0], names)
		for _, p := range t.trig {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				u.print(sb, x, names)
			}
			sb.WriteString(")")
		}
		if len(t.trig) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		sb.WriteByte('(')
		if t.fn {
			sb.WriteString(symName(t.op))
		} else {
			sb.WriteString(t.op)
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			u.print(sb, a, names)
		}
		sb.WriteByte(')')
	}
}

// Script renders assertions (with facts of all ground subterms) as SMT-LIB.
// hasIte reports a conditional inside t; with arrays set, one between arrays.
func hasIte(t *Term, arrays bool) bool {
	seen := map[*Term]bool{}
	var w func(*Term) bool
	w = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.op == "ite" && (!arrays || x.sort.isArr()) {
			return true
		}
		for _, a := range x.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

func (u *U) Script(asserts []*Term) string {
	// closure over facts
	var all []*Term
	inAll := map[*Term]bool{}
	seen := map[*Term]bool{}
	refs := map[*Term]int{}
	var order []*Term
	var work []*Term
	push := func(t *Term) {
		if !inAll[t] && t != u.True {
			inAll[t] = true
			all = append(all, t)
			work = append(work, t)
		}
	}
	for _, a := range asserts {
		push(a)
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.trig {
			for _, x := range p {
				visit(x)
			}
		}
		order = append(order, t)
		if t.fn && t.bound {
			if f := u.funFacts[t.op]; f != nil {
				push(f)
			}
		}
		for _, f := range t.facts {
			if !t.bound || !f.bound {
				push(f)
			}
		}
	}
	for len(work) > 0 {
		t := work[0]
		work = work[1:]
		visit(t)
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort Str 0)\n")
	usedF := map[string]bool{}
	for _, t := range order {
		if t.isSym && !t.bound {
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", symName(t.op), t.sort)
		}
		if t.fn && !usedF[t.op] {
			usedF[t.op] = true
			fmt.Fprintf(&sb, "(declare-fun %s %s)\n", symName(t.op), u.funs[t.op])
		}
	}
	// Ground arrays inside patterns get a constant of their own, since
	// solvers reject patterns that contain conditionals.
	own := map[*Term]bool{}
	var inTrig func(t *Term)
	inTrig = func(t *Term) {
		if !t.bound {
			if len(t.args) > 0 && hasIte(t, false) && !hasIte(t, true) {
				own[t] = true
			}
			return
		}
		for _, a := range t.args {
			inTrig(a)
		}
	}
	for _, t := range order {
		for _, p := range t.trig {
			for _, x := range p {
				inTrig(x)
			}
		}
	}
	names := map[*Term]string{}
	for _, t := range order {
		if own[t] {
			n := fmt.Sprintf("t_%d", t.id)
			fmt.Fprintf(&sb, "(declare-fun %s () %s)\n(assert (= %s ", n, t.sort, n)
			u.printTop(&sb, t, names)
			sb.WriteString("))\n")
			names[t] = n
			continue
		}
		if len(t.args) > 0 && refs[t] > 1 && !t.bound && t.op != "forall" && t.op != "exists" {
			n := fmt.Sprintf("t_%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.sort)
			u.printTop(&sb, t, names)
			sb.WriteString(")\n")
			names[t] = n
		}
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		u.print(&sb, t, names)
		sb.WriteString(")\n")
	}
	u.litKeys(&sb, order, usedF)
	return sb.String()
}

// litKeys: a string with the content of a literal is that literal, as a key.
func (u *U) litKeys(sb *strings.Builder, order []*Term, usedF map[string]bool) {
	keyed := false
	for _, t := range order {
		if strings.Contains(string(t.sort), "Array Str") {
			keyed = true
		}
	}
	if !keyed || !usedF["slen"] || !usedF["sat"] {
		return
	}
	for _, t := range order {
		if !t.isSym || t.bound || t.sort != SStr || !strings.HasPrefix(t.op, "lit$") {
			continue
		}
		b, err := hex.DecodeString(t.op[4:])
		if err != nil || len(b) > 8 {
			continue
		}
		fmt.Fprintf(sb, "(assert (forall ((s Str)) (! (=> (and (= (|slen| s) %d)", len(b))
		for i, c := range b {
			fmt.Fprintf(sb, " (= (|sat| s %d) %d)", i, c)
		}
		fmt.Fprintf(sb, ") (= s %s)) :pattern ((|slen| s)))))\n", symName(t.op))
	}
}
