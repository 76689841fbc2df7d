package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pcNode struct {
	t    *Term
	prev *pcNode
	n    int
}

type State struct {
	heap map[string]*Term
	pc   *pcNode
	top  *Term
	dead bool
	ep   int // memory epoch: advanced when everything is forgotten
}

func (s *State) clone() *State {
	h := make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, pc: s.pc, top: s.top, dead: s.dead, ep: s.ep}
}

type deferred struct {
	call *ssa.CallCommon
	fv   Val
	args []Val
	pos  token.Pos
	ins  *ssa.Defer
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]Val
	defers []deferred
	loops  map[*ssa.BasicBlock]*loopRun
	stop   *joinStop
	ret    func(st *State, res []Val)
	depth  int
	parent *Frame
}

func (f *Frame) clone() *Frame {
	v := make(map[ssa.Value]Val, len(f.vals)+8)
	for k, x := range f.vals {
		v[k] = x
	}
	l := make(map[*ssa.BasicBlock]*loopRun, len(f.loops))
	for k, x := range f.loops {
		l[k] = x
	}
	return &Frame{fn: f.fn, vals: v, defers: append([]deferred(nil), f.defers...), loops: l, stop: f.stop, ret: f.ret, depth: f.depth, parent: f.parent}
}

type writeRec struct {
	heap string
	addr *Term
}

type Obl struct {
	Name    string `json:"name"`
	VCs     int    `json:"vcs"`
	Proved  int    `json:"proved"`
	Backend map[string]int
	Failed  string `json:"failed,omitempty"` // solver answer of the first failure
	Script  string `json:"-"`
	Model   map[string]string
	Detail  string
}

type Engine struct {
	P         *Program
	u         *U
	smt       *SMT
	unit      *Contract // contract under verification
	dry       int
	recs      []*[]writeRec
	obls      map[string]*Obl
	order     []string
	funcReg   map[*Term]FuncV
	ptrReg    map[*Term]Ptr
	entry     *State
	envVars   map[string]TV
	timeout   int
	paths     int
	maxPath   int
	covered   bool
	counting  []countingObj
	reached   map[*ssa.BasicBlock]bool // blocks of the unit some path runs
	trusted   map[string]bool          // trusted contracts / intrinsics used
	inlined   map[string]bool
	loopsN    int
	invs      int
	stopAt    int
	failed    int
	progress  []func(st *State, ok *Term)
	replay    []replayVar
	epochs    int
	lits      map[*Term]string
	unfolded  map[*Term]bool
	natSeen   map[string]bool
	heapSorts map[string]Sort
	refHeaps  map[string]bool
	cmps      []*[]*Term
	epMark    map[int]int
}

type replayVar struct {
	name string
	t    *Term
}

func newEngine(p *Program) *Engine {
	e := &Engine{P: p, u: newU(), smt: &SMT{}, obls: map[string]*Obl{}, funcReg: map[*Term]FuncV{}, ptrReg: map[*Term]Ptr{}, timeout: 4000,
		maxPath: 4000, reached: map[*ssa.BasicBlock]bool{}, epMark: map[int]int{}, lits: map[*Term]string{}, unfolded: map[*Term]bool{}, natSeen: map[string]bool{}, heapSorts: map[string]Sort{}, refHeaps: map[string]bool{}, trusted: map[string]bool{}, inlined: map[string]bool{}}
	e.u.satHook = e.sat
	return e
}

// ---------- assumptions and obligations ----------

func (e *Engine) assume(st *State, t *Term) {
	if t == e.u.True {
		return
	}
	if t == e.u.False {
		st.dead = true
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &pcNode{e.prepHyp(t), st.pc, n}
}

func (e *Engine) pcTerms(st *State) []*Term {
	var out []*Term
	for p := st.pc; p != nil; p = p.prev {
		out = append(out, p.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (e *Engine) inPC(st *State, c *Term) bool {
	for p := st.pc; p != nil; p = p.prev {
		if p.t == c {
			return true
		}
		if p.t.op == "and" {
			for _, a := range p.t.args {
				if a == c {
					return true
				}
			}
		}
	}
	return false
}

func (e *Engine) feasible(st *State, c *Term) bool {
	if c == e.u.False || st.dead {
		return false
	}
	if e.inPC(st, e.u.Not(c)) {
		return false
	}
	if e.inPC(st, c) {
		return true
	}
	r, _ := e.smt.check(e.u.Script(append(e.pcTerms(st), c)), 400, nil)
	return r != "unsat"
}

// valid is a quick validity check (used for candidates).
func (e *Engine) valid(st *State, c *Term) bool {
	if c == e.u.True || st.dead {
		return true
	}
	if e.inPC(st, c) {
		return true
	}
	limit := 1500
	if e.unit.noInvAuto {
		limit = 6000 // only invariants written down, few and needed
	}
	for _, g := range e.goals(c) {
		as := append(e.pcTerms(st), g.hyp...)
		as = append(as, e.u.Not(g.g))
		r, _ := e.smt.check(e.u.Script(as), limit, nil)
		if strings.HasPrefix(r, "error") {
			panic("solver " + r)
		}
		if r != "unsat" {
			return false
		}
	}
	return true
}

type goal struct {
	hyp []*Term
	g   *Term
}

// goals splits a formula into separately provable goals.
func (e *Engine) goals(c *Term) []goal {
	u := e.u
	switch c.op {
	case "true":
		return nil
	case "and":
		var out []goal
		for _, a := range c.args {
			out = append(out, e.goals(a)...)
		}
		return out
	case "=>":
		var out []goal
		// the antecedent both as it stands, to match other occurrences of
		// it, and with instantiation patterns
		hyp := []*Term{c.args[0]}
		if p := e.prepHyp(c.args[0]); p != c.args[0] {
			hyp = append(hyp, p)
		}
		for _, g := range e.goals(c.args[1]) {
			out = append(out, goal{append(append([]*Term{}, hyp...), g.hyp...), g.g})
		}
		return out
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range c.bvars {
			sk := u.Fresh("sk$"+b.op, b.sort)
			m[b] = sk
		}
		b := u.Subst(c.args[0], m)
		e.attachStr(b, map[*Term]bool{})
		return e.goals(b)
	case "not":
		if c.args[0].op == "or" {
			var out []goal
			for _, a := range c.args[0].args {
				out = append(out, e.goals(u.Not(a))...)
			}
			return out
		}
	}
	return []goal{{nil, c}}
}

func (e *Engine) oblName(kind string) string { return e.unit.Name + "/" + kind }

func (e *Engine) oblige(st *State, c *Term, kind string, detail string) {
	if st.dead {
		return
	}
	if e.dry > 0 {
		e.assume(st, c)
		return
	}
	name := e.oblName(kind)
	o := e.obls[name]
	if o == nil {
		o = &Obl{Name: name, Backend: map[string]int{}}
		e.obls[name] = o
		e.order = append(e.order, name)
	}
	gs := e.goals(c)
	if len(gs) == 0 {
		o.VCs++
		o.Proved++
		o.Backend["simplifier"]++
		return
	}
	pc := e.pcTerms(st)
	for _, g := range gs {
		o.VCs++
		if g.g == e.u.True || e.inPC(st, g.g) {
			o.Proved++
			o.Backend["simplifier"]++
			continue
		}
		if o.Failed != "" {
			continue // one failure per obligation is enough
		}
		as := append(append([]*Term(nil), pc...), g.hyp...)
		as = append(as, e.u.Not(g.g))
		sc := e.u.Script(as)
		to := e.timeout
		if e.failed >= 4 {
			to = 1000
		}
		var want []string
		for _, rv := range e.replay {
			want = append(want, symName(rv.t.op))
		}
		r, _ := e.smt.check(sc, to, nil)
		be := "z3"
		if strings.HasPrefix(r, "error") {
			fmt.Fprintln(os.Stderr, sc)
			panic("solver " + r)
		}
		if r == "unknown" && e.failed < 3 {
			var b string
			r, b = fallback(sc, e.fbSeconds())
			if b != "" {
				be = b
			}
		}
		if r == "unsat" {
			o.Proved++
			o.Backend[be]++
			continue
		}
		o.Failed = r
		o.Script = sc
		o.Detail = detail + " goal: " + e.u.str(g.g)
		e.failed++
		if len(want) > 0 {
			decl := ""
			for _, rv := range e.replay {
				d := fmt.Sprintf("(declare-fun %s () %s)\n", symName(rv.t.op), rv.t.sort)
				if !strings.Contains(sc, d) {
					decl += d
				}
			}
			i := strings.Index(sc, "\n") + 1
			_, vals := e.smt.check(sc[:i]+decl+sc[i:], 3000, want)
			o.Model = parseModel(vals, e.replay)
		}
	}
	e.assume(st, c)
}

func (e *Engine) fbSeconds() int {
	if e.P.fbSec > 0 {
		return e.P.fbSec
	}
	return 30
}

func parseModel(s string, rv []replayVar) map[string]string {
	m := map[string]string{}
	for _, v := range rv {
		k := symName(v.t.op)
		i := strings.Index(s, "("+k+" ")
		if i < 0 {
			continue
		}
		rest := s[i+len(k)+2:]
		d := 0
		for j := 0; j < len(rest); j++ {
			if rest[j] == '(' {
				d++
			}
			if rest[j] == ')' {
				if d == 0 {
					val := strings.TrimSpace(rest[:j])
					val = strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(val, "(- ", "-"), ")", ""), "\n", " ")
					m[v.name] = val
					break
				}
				d--
			}
		}
	}
	return m
}

// ---------- heap ----------

func (e *Engine) heapGet(st *State, name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	e.heapSorts[name] = s
	ep := st.ep
	if strings.HasPrefix(name, "G$") && !strings.HasPrefix(name, "G$v$") {
		ep = 0
	}
	t := e.u.Const(fmt.Sprintf("H%d$%s", ep, name), s)
	if ep > 0 {
		t.mark = e.epMark[ep]
	}
	st.heap[name] = t
	return t
}

func (e *Engine) heapSet(st *State, name string, s Sort, addr, v *Term) {
	h := e.heapGet(st, name, s)
	st.heap[name] = e.u.Store(h, addr, v)
	for _, r := range e.recs {
		*r = append(*r, writeRec{name, addr})
	}
}

func (e *Engine) birth(a *Term) *Term { return e.u.App("birth", SInt, a) }

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)
var maxLen2 = new(big.Int).Lsh(big.NewInt(1), 48)

func (e *Engine) lenRange(suffix string, t *Term) *Term {
	if suffix == ".off" {
		return e.u.typeRange(t, new(big.Int), maxLen2)
	}
	return e.u.typeRange(t, new(big.Int), maxLen)
}

// rangeTerm attaches type facts to a scalar component.
func (e *Engine) rangeTerm(c comp, t *Term) *Term {
	if t.bound {
		// facts cannot be attached below a quantifier; bounds still hold
	}
	switch c.suffix {
	case ".len", ".cap", ".off":
		// see sliceFacts
		if t.bound {
			return e.lenRange(c.suffix, t)
		}
		return t
	}
	if c.t != nil {
		if b := basicInt(c.t); b != nil {
			lo, hi := intRange(b)
			return e.u.typeRange(t, lo, hi)
		}
	}
	if c.sort == SStr {
		e.strFacts(t)
	}
	return t
}

// freshVal makes an arbitrary value of type t.
func (e *Engine) freshVal(st *State, t types.Type, name string) Val {
	t = types.Unalias(t)
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		sv := &StructV{t: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, e.freshVal(st, s.Field(i).Type(), name+"."+s.Field(i).Name()))
		}
		return sv
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		av := &ArrayV{n: a.Len(), elem: a.Elem()}
		for _, c := range e.arrComps(a.Elem()) {
			av.comp = append(av.comp, e.u.Fresh(name, arr(SInt, c.sort)))
		}
		return av
	}
	if tup, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tup.Len(); i++ {
			tv = append(tv, e.freshVal(st, tup.At(i).Type(), fmt.Sprintf("%s%d", name, i)))
		}
		return tv
	}
	cs := comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		ts[i] = e.rangeTerm(c, e.u.Fresh(name+c.suffix, c.sort))
		if c.ptr {
			e.assume(st, e.u.Lt(e.birth(ts[i]), st.top))
		}
	}
	return e.fromComps(st, t, ts)
}

func (e *Engine) arrComps(t types.Type) []comp {
	if isAgg(t) {
		panic(unsupported("array of aggregates " + t.String()))
	}
	return comps(t)
}

// fromComps builds a Val from component terms, attaching structural facts.
func (e *Engine) fromComps(st *State, t types.Type, ts []*Term) Val {
	switch x := t.Underlying().(type) {
	case *types.Slice:
		_ = x
		s := SliceV{ts[0], ts[1], ts[2], ts[3]}
		e.sliceFacts(st, s)
		return s
	case *types.Interface:
		v := IfaceV{tag: ts[0], pay: ts[1]}
		if v.tag.isInt() {
			if v.tag.num.Sign() == 0 {
				return v
			}
			if dt := e.P.tagType(v.tag.num.Int64()); dt != nil {
				v.dyn = dt
				v.val = e.unbox(st, dt, v.pay)
			}
		}
		if !v.tag.isInt() && !v.tag.bound && !v.pay.bound {
			e.u.addFact(v.tag, e.u.Le(e.u.I(0), v.tag))
			e.u.addFact(v.pay, e.u.Imp(e.u.Eq(v.tag, e.u.I(0)), e.u.Eq(v.pay, e.u.I(0))))
		}
		return v
	case *types.Pointer:
		if p, ok := e.ptrReg[ts[0]]; ok {
			return p
		}
		return Ptr{kind: PObj, addr: ts[0]}
	case *types.Signature:
		if f, ok := e.funcReg[ts[0]]; ok {
			return f
		}
		return FuncV{t: ts[0]}
	}
	return ts[0]
}

// sliceFacts states that a slice value is well formed. For the components of
// one value that is unknown as a whole this holds everywhere, and is a fact
// about the symbols. A value computed from other terms is well formed on the
// path that computed it, and need not be on others: there it is an assumption
// of the path.
func (e *Engine) sliceFacts(st *State, s SliceV) {
	u := e.u
	if s.len.isInt() && s.cap.isInt() || s.len.bound || s.cap.bound {
		return
	}
	f := u.And(u.Le(u.I(0), s.len), u.Le(s.len, s.cap))
	n := u.Imp(u.Eq(s.ref, u.I(0)), u.Eq(s.cap, u.I(0)))
	if !rawSlice(s) {
		if st != nil {
			e.assume(st, f)
			if !s.off.bound {
				e.assume(st, u.And(u.Le(s.cap, u.Big(maxLen)), u.Le(u.I(0), s.off), u.Le(s.off, u.Big(maxLen2))))
			}
			if !s.ref.bound {
				e.assume(st, n)
			}
		}
		return
	}
	e.lenRange(".len", s.len)
	e.lenRange(".cap", s.cap)
	e.lenRange(".off", s.off)
	u.addFact(s.len, f)
	u.addFact(s.cap, f)
	if !s.ref.bound {
		u.addFact(s.cap, n)
		u.addFact(s.len, n)
	}
}

// rawSlice: the components are those of one unknown value.
func rawSlice(s SliceV) bool {
	ts := []*Term{s.ref, s.off, s.len, s.cap}
	suffix := []string{".ref", ".off", ".len", ".cap"}
	for i, t := range ts {
		switch {
		case t.isSym && len(t.args) == 0:
			if !ts[0].isSym || len(ts[0].args) != 0 || strings.Replace(t.op, suffix[i], "", 1) != strings.Replace(ts[0].op, ".ref", "", 1) {
				return false
			}
		case t.op == "select":
			if ts[0].op != "select" || t.args[1] != ts[0].args[1] || !rawArray(t.args[0], ts[0].args[0]) {
				return false
			}
		case t.fn:
			if !ts[0].fn || len(t.args) != len(ts[0].args) || strings.Replace(t.op, suffix[i], "", 1) != strings.Replace(ts[0].op, ".ref", "", 1) {
				return false
			}
			for k := range t.args {
				if t.args[k] != ts[0].args[k] {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func rawArray(a, b *Term) bool {
	if a.op == "select" {
		return b.op == "select" && a.args[1] == b.args[1] && rawArray(a.args[0], b.args[0])
	}
	return a.isSym && len(a.args) == 0
}

func (e *Engine) toComps(v Val, t types.Type) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case SliceV:
		return []*Term{x.ref, x.off, x.len, x.cap}
	case IfaceV:
		return []*Term{x.tag, x.pay}
	case Ptr:
		return []*Term{e.ptrTerm(x)}
	case FuncV:
		return []*Term{e.funcTerm(x)}
	}
	panic(unsupported(fmt.Sprintf("components of value %T", v)))
}

func (e *Engine) ptrTerm(p Ptr) *Term {
	if p.kind == PObj {
		return p.addr
	}
	for t, q := range e.ptrReg {
		if q == p {
			return t
		}
	}
	t := e.u.Fresh("new$ptr", SInt)
	e.u.addFact(t, e.u.Lt(e.u.I(0), t))
	e.ptrReg[t] = p
	return t
}

func (e *Engine) funcTerm(f FuncV) *Term {
	if f.t != nil {
		return f.t
	}
	if f.fn != nil && len(f.bind) == 0 && f.recv == nil {
		t := e.u.Const("glob$fn$"+f.fn.String(), SInt)
		e.u.addFact(t, e.u.Lt(e.u.I(0), t))
		e.funcReg[t] = f
		return t
	}
	t := e.u.Fresh("new$closure", SInt)
	e.u.addFact(t, e.u.Lt(e.u.I(0), t))
	f.t = t
	if f.fn != nil && f.fn.String() == "(*sync.WaitGroup).Done$bound" {
		e.u.addFact(t, e.u.Eq(e.u.App("notifies", SInt, t), e.payTerm(TV{f.bind[0], nil})))
	}
	e.funcReg[t] = f
	return t
}

func (e *Engine) zeroVal(t types.Type) Val {
	u := e.u
	t = types.Unalias(t)
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		sv := &StructV{t: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, e.zeroVal(s.Field(i).Type()))
		}
		return sv
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		av := &ArrayV{n: a.Len(), elem: a.Elem()}
		for _, c := range e.arrComps(a.Elem()) {
			av.comp = append(av.comp, u.ConstArr(arr(SInt, c.sort), e.zeroComp(c)))
		}
		return av
	}
	if isOpaque(t) {
		return u.Const("zero$"+typeKey(t), SInt)
	}
	cs := comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		ts[i] = e.zeroComp(c)
	}
	return e.fromComps(nil, t, ts)
}

func (e *Engine) zeroComp(c comp) *Term {
	switch c.sort {
	case SBool:
		return e.u.False
	case SStr:
		return e.strLit("")
	case SInt:
		return e.u.I(0)
	}
	panic("zeroComp")
}

type countingObj struct{ addr, tag *Term }

func (e *Engine) alloc(st *State, name string) *Term {
	t := e.u.Fresh("new$"+name, SInt)
	e.u.addFact(t, e.u.Lt(e.u.I(0), t))
	e.u.addFact(t, e.u.Eq(e.birth(t), st.top))
	st.top = e.u.AddI(st.top, 1)
	return t
}

// fieldAddr: derived address of aggregate field.
func (e *Engine) fieldAddr(structKey string, field string, a *Term) *Term {
	f := "fa$" + structKey + "." + field
	t := e.u.App(f, SInt, a)
	if len(t.facts) == 0 && !t.bound {
		e.u.addFact(t, e.u.Eq(e.u.App("inv$"+f, SInt, t), a))
		e.u.addFact(t, e.u.Eq(e.u.App("akind", SInt, t), e.u.I(e.P.akind(f))))
		e.u.addFact(t, e.u.Eq(e.birth(t), e.birth(a)))
		e.u.addFact(t, e.u.Not(e.u.Eq(t, e.u.I(0))))
	}
	return t
}

func (e *Engine) elemAddr(elem types.Type, ref, idx *Term) *Term {
	f := "ea$" + elemKey(elem)
	t := e.u.App(f, SInt, ref, idx)
	e.addrFacts(t)
	return t
}

// addrFacts: element addresses determine their array and index.
func (e *Engine) addrFacts(t *Term) {
	u := e.u
	if t.bound {
		if u.funFacts[t.op] == nil {
			r, i := u.BVar("r", SInt), u.BVar("i", SInt)
			x := u.App(t.op, SInt, r, i)
			u.funFacts[t.op] = u.Forall([]*Term{r, i}, u.And(
				u.Eq(u.App("inv1$"+t.op, SInt, x), r),
				u.Eq(u.App("inv2$"+t.op, SInt, x), i),
				u.Eq(u.App("akind", SInt, x), u.I(e.P.akind(t.op))),
				u.Eq(e.birth(x), e.birth(r))), []*Term{x})
		}
		return
	}
	if len(t.facts) > 0 {
		return
	}
	u.addFact(t, u.Eq(u.App("inv1$"+t.op, SInt, t), t.args[0]))
	u.addFact(t, u.Eq(u.App("inv2$"+t.op, SInt, t), t.args[1]))
	u.addFact(t, u.Eq(u.App("akind", SInt, t), u.I(e.P.akind(t.op))))
	u.addFact(t, u.Eq(e.birth(t), e.birth(t.args[0])))
	u.addFact(t, u.Not(u.Eq(t, u.I(0))))
}

func structKeyOf(t types.Type) string {
	return typeKey(types.Unalias(t))
}

// fieldPtr computes &p.f.
func (e *Engine) fieldPtr(p Ptr, structT types.Type, i int) Ptr {
	s := structT.Underlying().(*types.Struct)
	f := s.Field(i)
	if p.kind != PObj {
		panic(unsupported("field of non-object pointer"))
	}
	k := structKeyOf(structT)
	if isAgg(f.Type()) {
		return Ptr{kind: PObj, addr: e.fieldAddr(k, f.Name(), p.addr)}
	}
	return Ptr{kind: PField, addr: p.addr, heap: k + "." + f.Name()}
}

// opaqueField: a field of a value kept as one term is a function of the term.
func (e *Engine) opaqueField(st *State, v *Term, t types.Type, i int) Val {
	f := t.Underlying().(*types.Struct).Field(i)
	var ts []*Term
	for _, c := range comps(f.Type()) {
		ts = append(ts, e.rangeTerm(c, e.u.App("opq$"+typeKey(t)+"."+f.Name()+c.suffix, c.sort, v)))
	}
	return e.fromComps(st, f.Type(), ts)
}

func (e *Engine) elemPtr(elem types.Type, ref, idx *Term) Ptr {
	if isAgg(elem) {
		return Ptr{kind: PObj, addr: e.elemAddr(elem, ref, idx)}
	}
	return Ptr{kind: PElem, heap: "E$" + elemKey(elem), ref: ref, idx: idx}
}

func (e *Engine) load(st *State, p Ptr, t types.Type) Val {
	t = types.Unalias(t)
	u := e.u
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		sv := &StructV{t: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, e.load(st, e.fieldPtr(p, t, i), s.Field(i).Type()))
		}
		return sv
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		av := &ArrayV{n: a.Len(), elem: a.Elem()}
		for _, c := range e.arrComps(a.Elem()) {
			av.comp = append(av.comp, u.Select(e.heapGet(st, "E$"+elemKey(a.Elem())+c.suffix, arr(SInt, arr(SInt, c.sort))), p.addr))
		}
		return av
	}
	cs := comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		var x *Term
		switch p.kind {
		case PObj:
			x = u.Select(e.heapGet(st, "C$"+elemKey(t)+c.suffix, arr(SInt, c.sort)), p.addr)
		case PField:
			x = u.Select(e.heapGet(st, p.heap+c.suffix, arr(SInt, c.sort)), p.addr)
		case PElem:
			x = u.Select(u.Select(e.heapGet(st, p.heap+c.suffix, arr(SInt, arr(SInt, c.sort))), p.ref), p.idx)
		}
		x = e.rangeTerm(c, x)
		if c.ptr && !x.isInt() && !isAlloc(x) && !x.bound {
			e.assume(st, u.Lt(e.birth(x), st.top))
		}
		ts[i] = x
	}
	return e.fromComps(st, t, ts)
}

func (e *Engine) store(st *State, p Ptr, t types.Type, v Val) {
	t = types.Unalias(t)
	u := e.u
	if isStruct(t) {
		s := t.Underlying().(*types.Struct)
		sv := v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			e.store(st, e.fieldPtr(p, t, i), s.Field(i).Type(), sv.f[i])
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		av := v.(*ArrayV)
		for i, c := range e.arrComps(a.Elem()) {
			e.heapSet(st, "E$"+elemKey(a.Elem())+c.suffix, arr(SInt, arr(SInt, c.sort)), p.addr, av.comp[i])
		}
		return
	}
	cs := comps(t)
	ts := e.toComps(v, t)
	for i, c := range cs {
		if c.ptr {
			if p.kind == PField {
				e.refHeaps[p.heap+c.suffix] = true
			} else {
				e.refHeaps["C$"+elemKey(t)+c.suffix] = true
			}
		}
		switch p.kind {
		case PObj:
			e.heapSet(st, "C$"+elemKey(t)+c.suffix, arr(SInt, c.sort), p.addr, ts[i])
		case PField:
			e.heapSet(st, p.heap+c.suffix, arr(SInt, c.sort), p.addr, ts[i])
		case PElem:
			hs := arr(SInt, arr(SInt, c.sort))
			row := u.Select(e.heapGet(st, p.heap+c.suffix, hs), p.ref)
			e.heapSet(st, p.heap+c.suffix, hs, p.ref, u.Store(row, p.idx, ts[i]))
		}
	}
}

// ---------- interfaces ----------

func (e *Engine) mkIface(st *State, t types.Type, v Val) IfaceV {
	tag := e.u.I(e.P.tagOf(t))
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return IfaceV{tag, e.toComps(v, t)[0], t, v}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(IfaceV)
	}
	if isAgg(t) {
		// boxed aggregate: fresh immutable copy
		a := e.alloc(st, "box$"+typeKey(t))
		e.store(st, Ptr{kind: PObj, addr: a}, t, v)
		return IfaceV{tag, a, t, v}
	}
	cs := comps(t)
	ts := e.toComps(v, t)
	args := append([]*Term(nil), ts...)
	b := e.u.App("box$"+typeKey(t), SInt, args...)
	for i, c := range cs {
		e.u.addFact(b, e.u.Eq(e.u.App("unbox$"+typeKey(t)+c.suffix, c.sort, b), ts[i]))
	}
	e.u.addFact(b, e.u.Lt(e.birth(b), e.u.I(0)))
	return IfaceV{tag, b, t, v}
}

func (e *Engine) unbox(st *State, t types.Type, pay *Term) Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return e.fromComps(st, t, []*Term{pay})
	}
	if isAgg(t) {
		if st == nil {
			return nil
		}
		return e.load(st, Ptr{kind: PObj, addr: pay}, t)
	}
	cs := comps(t)
	ts := make([]*Term, len(cs))
	for i, c := range cs {
		if strings.HasPrefix(pay.op, "box$") && pay.fn {
			ts[i] = pay.args[i]
			continue
		}
		ts[i] = e.rangeTerm(c, e.u.App("unbox$"+typeKey(t)+c.suffix, c.sort, pay))
	}
	return e.fromComps(st, t, ts)
}

func (e *Engine) ifaceEq(st *State, a, b IfaceV) *Term {
	u := e.u
	teq := u.Eq(a.tag, b.tag)
	if teq == u.False {
		return u.False
	}
	dt := a.dyn
	if dt == nil {
		dt = b.dyn
	}
	if dt != nil {
		if _, ok := dt.Underlying().(*types.Pointer); !ok {
			if isAgg(dt) {
				return u.And(teq, u.Eq(a.pay, b.pay))
			}
			av := e.toComps(e.unbox(st, dt, a.pay), dt)
			bv := e.toComps(e.unbox(st, dt, b.pay), dt)
			c := teq
			for i := range av {
				c = u.And(c, u.Eq(av[i], bv[i]))
			}
			return c
		}
	}
	return u.And(teq, u.Eq(a.pay, b.pay))
}

func (e *Engine) valEq(st *State, a, b Val, t types.Type) *Term {
	u := e.u
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort == SStr {
			return e.strEq(x, y)
		}
		return u.Eq(x, y)
	case IfaceV:
		if y, ok := b.(IfaceV); ok {
			return e.ifaceEq(st, x, y)
		}
	case SliceV:
		y := b.(SliceV)
		if y.ref.isInt() {
			return u.Eq(x.ref, y.ref)
		}
		if x.ref.isInt() {
			return u.Eq(x.ref, y.ref)
		}
		return u.And(u.Eq(x.ref, y.ref), u.Eq(x.off, y.off), u.Eq(x.len, y.len), u.Eq(x.cap, y.cap))
	case *StructV:
		y := b.(*StructV)
		c := u.True
		for i := range x.f {
			c = u.And(c, e.valEq(st, x.f[i], y.f[i], x.t.Field(i).Type()))
		}
		return c
	case *ArrayV:
		y := b.(*ArrayV)
		c := u.True
		if x.n <= 64 {
			for i := int64(0); i < x.n; i++ {
				for j := range x.comp {
					c = u.And(c, u.Eq(u.Select(x.comp[j], u.I(i)), u.Select(y.comp[j], u.I(i))))
				}
			}
			return c
		}
	case Ptr, FuncV:
		return u.Eq(e.toComps(a, t)[0], e.toComps(b, t)[0])
	case nil:
		return u.B(b == nil)
	}
	panic(unsupported(fmt.Sprintf("equality of %T", a)))
}

// ---------- operands ----------

func (e *Engine) val(fr *Frame, st *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalPtr(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return nil
	}
	r, ok := fr.vals[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fr.fn))
	}
	return r
}

func (e *Engine) globalPtr(g *ssa.Global) Ptr {
	a := e.u.Const("glob$"+g.Pkg.Pkg.Path()+"."+g.Name(), SInt)
	if len(a.facts) == 0 {
		e.u.addFact(a, e.u.Lt(e.u.I(0), a))
		e.u.addFact(a, e.u.Eq(e.birth(a), e.u.I(-1)))
		e.u.addFact(a, e.u.Eq(e.u.App("globid", SInt, a), e.u.I(e.P.akind("glob$"+g.Pkg.Pkg.Path()+"."+g.Name()))))
	}
	return Ptr{kind: PObj, addr: a}
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + t.String()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.u.B(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		return e.strLit(constant.StringVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		return e.u.Big(constBig(c.Value))
	}
	return e.u.Const("float$"+sanitize(c.Value.ExactString()), SInt)
}

func (e *Engine) T(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case Ptr:
		return e.ptrTerm(x)
	case FuncV:
		return e.funcTerm(x)
	}
	panic(unsupported(fmt.Sprintf("scalar expected, got %T", v)))
}

// ---------- block execution ----------

func (e *Engine) runFunc(fn *ssa.Function, args []Val, bind []Val, st *State, parent *Frame, ret func(st *State, res []Val)) {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: " + fn.String()))
	}
	fr := &Frame{fn: fn, vals: map[ssa.Value]Val{}, loops: map[*ssa.BasicBlock]*loopRun{}, ret: ret, parent: parent}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		fr.vals[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.vals[f] = bind[i]
	}
	e.enter(fr, st, fn.Blocks[0], nil)
}

func (e *Engine) enter(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	// leaving a loop?
	if prev != nil {
		for h, lr := range fr.loops {
			if lr.body[prev] && !lr.body[b] {
				if lr.dry {
					return
				}
				if b != h {
					delete(fr.loops, h)
				}
			}
		}
	}
	for s := fr.stop; s != nil; s = s.up {
		if s.at == b {
			s.got = append(s.got, arrival{fr, st, e.edgeVals(fr, st, b, prev), prev})
			return
		}
	}
	li := e.P.loopsOf(fr.fn)
	if body, ok := li[b]; ok {
		if lr, active := fr.loops[b]; active && prev != nil && body[prev] {
			lr.back(fr, st, prev)
			return
		}
		e.enterLoop(fr, st, b, prev, body)
		return
	}
	e.setPhis(fr, st, b, prev)
	e.run(fr, st, b, firstNonPhi(b))
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	panic("pred")
}

func (e *Engine) edgeVals(fr *Frame, st *State, b, prev *ssa.BasicBlock) []Val {
	ps := phisOf(b)
	if len(ps) == 0 {
		return nil
	}
	pi := predIndex(b, prev)
	nv := make([]Val, len(ps))
	for i, p := range ps {
		nv[i] = e.val(fr, st, p.Edges[pi])
	}
	return nv
}

func (e *Engine) setPhis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	nv := e.edgeVals(fr, st, b, prev)
	for i, p := range phisOf(b) {
		fr.vals[p] = nv[i]
	}
}

type pathLimit struct{}

func (e *Engine) run(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	u := e.u
	if e.dry == 0 && !st.dead && fr.fn == e.unit.Fn {
		e.reached[b] = true
	}
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		switch ins := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			c := e.T(e.val(fr, st, ins.Cond))
			if e.unit.Merge && (!e.unit.MergeCalls || fr.parent != nil && fr.fn.Parent() == nil) {
				if j := e.joinOf(b); j != nil {
					e.branchMerged(fr, st, b, j, c)
					return
				}
			}
			for k, cc := range []*Term{c, u.Not(c)} {
				if !e.feasible(st, cc) {
					continue
				}
				st2 := st.clone()
				e.assume(st2, cc)
				e.enter(fr.clone(), st2, b.Succs[k], b)
			}
			return
		case *ssa.Jump:
			e.enter(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			e.paths++
			if e.paths > e.maxPath {
				panic(unsupported("too many paths"))
			}
			var res []Val
			for _, r := range ins.Results {
				res = append(res, e.val(fr, st, r))
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			e.panicAt(fr, st, "panic", ins.Pos())
			return
		case *ssa.RunDefers:
			e.runDefers(fr, st, func(fr *Frame, st *State) { e.run(fr, st, b, i+1) })
			return
		case *ssa.Defer:
			d := deferred{call: &ins.Call, ins: ins, pos: ins.Pos()}
			if !ins.Call.IsInvoke() {
				d.fv = e.calleeVal(fr, st, &ins.Call)
			} else {
				d.fv = e.val(fr, st, ins.Call.Value)
			}
			for _, a := range ins.Call.Args {
				d.args = append(d.args, e.val(fr, st, a))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Call:
			bi := i
			e.call(fr, st, &ins.Call, ins.Pos(), ins.Type(), func(st2 *State, v Val) {
				if st2.dead {
					return
				}
				fr2 := fr.clone()
				if v != nil {
					fr2.vals[ins] = v
				}
				e.run(fr2, st2, b, bi+1)
			})
			return
		case *ssa.Go:
			e.goStmt(fr, st, ins)
		case *ssa.Store:
			p, ok := e.val(fr, st, ins.Addr).(Ptr)
			if !ok {
				panic(unsupported("store through non-pointer"))
			}
			e.nilCheck(fr, st, p, ins.Pos())
			e.store(st, p, ins.Val.Type(), e.val(fr, st, ins.Val))
		case *ssa.MapUpdate:
			e.mapUpdate(fr, st, ins)
		case *ssa.Send, *ssa.Select:
			e.commHavoc(fr, st, b.Instrs[i])
		case ssa.Value:
			if ap, ok := ins.(*ssa.UnOp); ok && ap.Op == token.ARROW {
				e.commHavoc(fr, st, b.Instrs[i])
				continue
			}
			if ta, ok := ins.(*ssa.TypeAssert); ok {
				bi := i
				e.typeAssert(fr, st, ta, func(fr2 *Frame, st2 *State, v Val) {
					fr2.vals[ta] = v
					e.run(fr2, st2, b, bi+1)
				})
				return
			}
			fr.vals[ins] = e.value(fr, st, b.Instrs[i])
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", ins)))
		}
	}
}

func (e *Engine) runDefers(fr *Frame, st *State, k func(fr *Frame, st *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	e.callVal(fr, st, d.call, d.fv, d.args, d.pos, nil, func(st2 *State, v Val) {
		if st2.dead {
			return
		}
		e.runDefers(fr.clone(), st2, k)
	})
}

func (e *Engine) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	x := e.P.fset(p)
	return x
}

// panicAt: a panic is reached on this path.
func (e *Engine) panicAt(fr *Frame, st *State, what string, pos token.Pos) {
	if e.dry > 0 {
		return
	}
	e.paths++
	name := "no-panic:" + what
	if fr.fn != e.unit.Fn {
		name += "@" + shortFn(fr.fn)
	}
	if e.unit.Panics != nil {
		c := e.evalBool(e.unit.Panics, e.entryEnv(e.entry))
		e.oblige(st, c, "panics-only-when", e.posStr(pos))
		return
	}
	if e.unit.MayPanic {
		return
	}
	e.oblige(st, e.u.False, name, e.posStr(pos))
	st.dead = true
}

// check a runtime condition whose failure panics.
func (e *Engine) rtCheck(fr *Frame, st *State, c *Term, what string, pos token.Pos) {
	if c == e.u.True {
		return
	}
	if e.dry > 0 {
		e.assume(st, c)
		return
	}
	if e.unit.MayPanic {
		e.assume(st, c)
		return
	}
	if e.unit.Panics != nil {
		p := e.evalBool(e.unit.Panics, e.entryEnv(e.entry))
		e.oblige(st, e.u.Or(c, p), "panics-only-when", e.posStr(pos))
		e.assume(st, c)
		return
	}
	name := "safe:" + what
	if fr != nil && fr.fn != e.unit.Fn {
		name += "@" + shortFn(fr.fn)
	}
	e.oblige(st, c, name, e.posStr(pos))
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, "github.com/NVIDIA/vdisc/pkg/", "")
	return s
}

func (e *Engine) nilCheck(fr *Frame, st *State, p Ptr, pos token.Pos) {
	if p.kind == PElem {
		return
	}
	a := p.addr
	if isAlloc(a) || a.fn && isAddrFn(a.op) {
		return
	}
	e.rtCheck(fr, st, e.u.Not(e.u.Eq(a, e.u.I(0))), "nil", pos)
}

// value computes a pure instruction.
func (e *Engine) value(fr *Frame, st *State, ins ssa.Instruction) Val {
	u := e.u
	switch x := ins.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		a := e.alloc(st, sanitize(x.Comment)+"$"+elemKey(t))
		p := Ptr{kind: PObj, addr: a}
		if typeKey(t) == "iso9660.CountingWriter" {
			e.counting = append(e.counting, countingObj{a, u.I(e.P.tagOf(x.Type()))})
		}
		if at, ok := t.Underlying().(*types.Array); ok && isAgg(at.Elem()) && at.Len() <= 16 {
			for i := int64(0); i < at.Len(); i++ {
				e.store(st, e.elemPtr(at.Elem(), a, u.I(i)), at.Elem(), e.zeroVal(at.Elem()))
			}
			return p
		}
		e.store(st, p, t, e.zeroVal(t))
		return p
	case *ssa.BinOp:
		return e.binop(fr, st, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p, ok := e.val(fr, st, x.X).(Ptr)
			if !ok {
				panic(unsupported("load through non-pointer"))
			}
			e.nilCheck(fr, st, p, x.Pos())
			if g, ok := x.X.(*ssa.Global); ok {
				if v, ok := e.globalVal(st, g); ok {
					return v
				}
			}
			return e.load(st, p, x.Type())
		case token.NOT:
			return u.Not(e.T(e.val(fr, st, x.X)))
		case token.SUB:
			b := basicInt(x.Type())
			if b == nil {
				return u.App("fneg", SInt, e.T(e.val(fr, st, x.X)))
			}
			return u.wrap(u.Neg(e.T(e.val(fr, st, x.X))), b)
		case token.XOR:
			b := basicInt(x.Type())
			t := e.T(e.val(fr, st, x.X))
			_, hi := intRange(b)
			lo, _ := intRange(b)
			if lo.Sign() < 0 {
				return u.Sub(u.I(-1), t)
			}
			return u.Sub(u.Big(hi), t)
		}
	case *ssa.ChangeType:
		return e.val(fr, st, x.X)
	case *ssa.ChangeInterface:
		return e.val(fr, st, x.X)
	case *ssa.Convert:
		return e.convert(fr, st, x)
	case *ssa.MakeInterface:
		return e.mkIface(st, x.X.Type(), e.val(fr, st, x.X))
	case *ssa.FieldAddr:
		p := e.val(fr, st, x.X).(Ptr)
		e.nilCheck(fr, st, p, x.Pos())
		return e.fieldPtr(p, x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.Field:
		if t, ok := e.val(fr, st, x.X).(*Term); ok {
			return e.opaqueField(st, t, x.X.Type(), x.Field)
		}
		return e.val(fr, st, x.X).(*StructV).f[x.Field]
	case *ssa.IndexAddr:
		idx := e.T(e.val(fr, st, x.Index))
		switch t := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.val(fr, st, x.X).(SliceV)
			e.rtCheck(fr, st, u.And(u.Le(u.I(0), idx), u.Lt(idx, s.len)), "index", x.Pos())
			return e.elemPtr(t.Elem(), s.ref, u.Add(s.off, idx))
		case *types.Pointer:
			a := t.Elem().Underlying().(*types.Array)
			p := e.val(fr, st, x.X).(Ptr)
			e.rtCheck(fr, st, u.And(u.Le(u.I(0), idx), u.Lt(idx, u.I(a.Len()))), "index", x.Pos())
			return e.elemPtr(a.Elem(), p.addr, idx)
		}
	case *ssa.Index:
		idx := e.T(e.val(fr, st, x.Index))
		switch v := e.val(fr, st, x.X).(type) {
		case *ArrayV:
			e.rtCheck(fr, st, u.And(u.Le(u.I(0), idx), u.Lt(idx, u.I(v.n))), "index", x.Pos())
			cs := comps(v.elem)
			ts := make([]*Term, len(cs))
			for i, c := range cs {
				ts[i] = e.rangeTerm(c, u.Select(v.comp[i], idx))
			}
			return e.fromComps(st, v.elem, ts)
		case *Term:
			e.rtCheck(fr, st, u.And(u.Le(u.I(0), idx), u.Lt(idx, e.slen(v))), "index", x.Pos())
			return e.sat(v, idx)
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			return e.mapLookup(fr, st, x)
		}
		s := e.T(e.val(fr, st, x.X))
		idx := e.T(e.val(fr, st, x.Index))
		e.rtCheck(fr, st, u.And(u.Le(u.I(0), idx), u.Lt(idx, e.slen(s))), "index", x.Pos())
		return e.sat(s, idx)
	case *ssa.Slice:
		return e.sliceOp(fr, st, x)
	case *ssa.MakeSlice:
		n := e.T(e.val(fr, st, x.Len))
		c := e.T(e.val(fr, st, x.Cap))
		e.rtCheck(fr, st, u.And(u.Le(u.I(0), n), u.Le(n, c), u.Le(c, u.Big(maxLen))), "makeslice", x.Pos())
		return e.newSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeMap:
		return e.newMap(st, x.Type().Underlying().(*types.Map))
	case *ssa.MakeChan:
		return e.alloc(st, "chan")
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.bind = append(f.bind, e.val(fr, st, b))
		}
		return f
	case *ssa.Extract:
		return e.val(fr, st, x.Tuple).(TupleV)[x.Index]
	case *ssa.Phi:
		panic("phi")
	case *ssa.Range:
		e.rangeReset(fr, st, x)
		return &rangeIter{x: e.val(fr, st, x.X), t: x.X.Type()}
	case *ssa.Next:
		return e.next(fr, st, x)
	}
	panic(unsupported(fmt.Sprintf("instruction %T %s", ins, ins)))
}

func (e *Engine) newSlice(st *State, elem types.Type, n, c *Term) SliceV {
	ref := e.alloc(st, "arr$"+elemKey(elem))
	if isAgg(elem) {
		e.zeroAggElems(st, elem, ref)
	} else {
		for _, cc := range comps(elem) {
			e.heapSet(st, "E$"+elemKey(elem)+cc.suffix, arr(SInt, arr(SInt, cc.sort)), ref, e.u.ConstArr(arr(SInt, cc.sort), e.zeroComp(cc)))
		}
	}
	return SliceV{ref, e.u.I(0), n, c}
}

// zeroAggElems: elements of a fresh array of structs are zero.
func (e *Engine) zeroAggElems(st *State, elem types.Type, ref *Term) {
	if !isStruct(elem) {
		panic(unsupported("slice of arrays"))
	}
	u := e.u
	s := elem.Underlying().(*types.Struct)
	i := u.BVar("i", SInt)
	a := e.elemAddr(elem, ref, i)
	for f := 0; f < s.NumFields(); f++ {
		ft := s.Field(f).Type()
		if isAgg(ft) {
			continue // nested aggregates of fresh elements left unconstrained
		}
		for _, c := range comps(ft) {
			h := e.heapGet(st, structKeyOf(elem)+"."+s.Field(f).Name()+c.suffix, arr(SInt, c.sort))
			z := e.zeroComp(c)
			if isOpaque(ft) {
				z = u.Const("zero$"+typeKey(ft), SInt)
			}
			sel := u.Select(h, a)
			e.assume(st, u.Forall([]*Term{i}, u.Eq(sel, z), []*Term{sel}))
		}
	}
}

func (e *Engine) sliceOp(fr *Frame, st *State, x *ssa.Slice) Val {
	u := e.u
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.T(e.val(fr, st, v))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = u.I(0)
	}
	switch t := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := e.T(e.val(fr, st, x.X))
		n := e.slen(s)
		if hi == nil {
			hi = n
		}
		e.rtCheck(fr, st, u.And(u.Le(u.I(0), lo), u.Le(lo, hi), u.Le(hi, n)), "slice", x.Pos())
		return e.ssub(s, lo, hi)
	case *types.Slice:
		s := e.val(fr, st, x.X).(SliceV)
		c := s.cap
		if hi == nil {
			hi = s.len
		}
		if mx == nil {
			mx = c
		}
		e.rtCheck(fr, st, u.And(u.Le(u.I(0), lo), u.Le(lo, hi), u.Le(hi, mx), u.Le(mx, c)), "slice", x.Pos())
		r := SliceV{s.ref, u.Add(s.off, lo), u.Sub(hi, lo), u.Sub(mx, lo)}
		return r
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		p := e.val(fr, st, x.X).(Ptr)
		n := u.I(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		e.rtCheck(fr, st, u.And(u.Le(u.I(0), lo), u.Le(lo, hi), u.Le(hi, mx), u.Le(mx, n)), "slice", x.Pos())
		return SliceV{p.addr, lo, u.Sub(hi, lo), u.Sub(mx, lo)}
	}
	panic(unsupported("slice of " + x.X.Type().String()))
}

func (e *Engine) binop(fr *Frame, st *State, x *ssa.BinOp) Val {
	u := e.u
	av, bv := e.val(fr, st, x.X), e.val(fr, st, x.Y)
	switch x.Op {
	case token.EQL:
		return e.valEq(st, av, bv, x.X.Type())
	case token.NEQ:
		return u.Not(e.valEq(st, av, bv, x.X.Type()))
	}
	a, b := e.T(av), e.T(bv)
	bt, _ := x.X.Type().Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			return e.scat(a, b)
		case token.LSS:
			return u.App("slt", SBool, a, b)
		case token.GTR:
			return u.App("slt", SBool, b, a)
		case token.LEQ:
			return u.Not(u.App("slt", SBool, b, a))
		case token.GEQ:
			return u.Not(u.App("slt", SBool, a, b))
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return u.App("fcmp"+fmt.Sprint(int(x.Op)), SBool, a, b)
		}
		return u.App("fop"+fmt.Sprint(int(x.Op)), SInt, a, b)
	}
	if x.Op == token.LSS || x.Op == token.LEQ || x.Op == token.GTR || x.Op == token.GEQ {
		for _, c := range e.cmps {
			*c = append(*c, a, b)
		}
	}
	switch x.Op {
	case token.LSS:
		return u.Lt(a, b)
	case token.LEQ:
		return u.Le(a, b)
	case token.GTR:
		return u.Lt(b, a)
	case token.GEQ:
		return u.Le(b, a)
	}
	if a.sort == SBool {
		switch x.Op {
		case token.AND:
			return u.And(a, b)
		case token.OR:
			return u.Or(a, b)
		}
	}
	t := basicInt(x.Type())
	if t == nil {
		panic(unsupported("binop " + x.String()))
	}
	switch x.Op {
	case token.ADD:
		return u.wrap(u.Add(a, b), t)
	case token.SUB:
		return u.wrap(u.Sub(a, b), t)
	case token.MUL:
		return u.wrap(u.Mul(a, b), t)
	case token.QUO, token.REM:
		e.rtCheck(fr, st, u.Not(u.Eq(b, u.I(0))), "divide", x.Pos())
		q, r := e.goDiv(a, b)
		if x.Op == token.QUO {
			return u.wrap(q, t)
		}
		return r
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return e.bitop(x.Op, a, b, t)
	case token.SHL, token.SHR:
		return e.shift(fr, st, x.Op, a, b, t, x)
	}
	panic(unsupported("binop " + x.String()))
}

// goDiv: truncated division.
func (e *Engine) goDiv(a, b *Term) (q, r *Term) {
	u := e.u
	if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return u.Div(a, b), u.Mod(a, b)
	}
	if b.isInt() && b.num.Sign() > 0 {
		// a>=0: a div b ; a<0: -((-a) div b)
		na := u.Neg(a)
		q = u.Ite(u.Le(u.I(0), a), u.Div(a, b), u.Neg(u.Div(na, b)))
		r = u.Ite(u.Le(u.I(0), a), u.Mod(a, b), u.Neg(u.Mod(na, b)))
		return
	}
	aa := u.Ite(u.Le(u.I(0), a), a, u.Neg(a))
	bb := u.Ite(u.Le(u.I(0), b), b, u.Neg(b))
	d, m := u.Div(aa, bb), u.Mod(aa, bb)
	same := u.Eq(u.Le(u.I(0), a), u.Lt(u.I(0), b))
	q = u.Ite(same, d, u.Neg(d))
	r = u.Ite(u.Le(u.I(0), a), m, u.Neg(m))
	return
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func (e *Engine) bitop(op token.Token, a, b *Term, t *types.Basic) *Term {
	u := e.u
	if a.isInt() && b.isInt() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.num, b.num)
		case token.OR:
			r.Or(a.num, b.num)
		case token.XOR:
			r.Xor(a.num, b.num)
		case token.AND_NOT:
			r.AndNot(a.num, b.num)
		}
		return u.wrap(u.Big(r), t)
	}
	bits, signed := bitsOf(t)
	if a.isInt() && op != token.AND_NOT {
		a, b = b, a
	}
	if b.isInt() {
		m := b.num
		if m.Sign() < 0 || signed {
			m = new(big.Int).And(m, new(big.Int).Sub(pow2(bits), big.NewInt(1)))
		}
		x := a
		if signed {
			x = u.Ite(u.Le(u.I(0), a), a, u.Add(a, u.Big(pow2(bits)))) // two's complement image
		}
		var r *Term
		and := u.maskConst(x, m, bits)
		switch op {
		case token.AND:
			r = and
		case token.OR:
			r = u.Sub(u.Add(x, u.Big(m)), and)
		case token.XOR:
			r = u.Sub(u.Add(x, u.Big(m)), u.Mul(u.I(2), and))
		case token.AND_NOT:
			r = u.Sub(x, and)
		}
		full := new(big.Int).Sub(pow2(bits), big.NewInt(1))
		if r.lo == nil || r.lo.Sign() < 0 {
			r.lo = new(big.Int)
		}
		if r.hi == nil || r.hi.Cmp(full) > 0 {
			r.hi = full
		}
		return u.wrap(r, t)
	}
	// both symbolic: bit by bit for small widths
	if bits <= 32 && !signed {
		var parts []*Term
		for k := uint(0); k < bits; k++ {
			ab := u.Mod(u.Div(a, u.Big(pow2(k))), u.I(2))
			bb := u.Mod(u.Div(b, u.Big(pow2(k))), u.I(2))
			one := u.I(1)
			var bit *Term
			switch op {
			case token.AND:
				bit = u.Ite(u.And(u.Eq(ab, one), u.Eq(bb, one)), one, u.I(0))
			case token.OR:
				bit = u.Ite(u.Or(u.Eq(ab, one), u.Eq(bb, one)), one, u.I(0))
			case token.XOR:
				bit = u.Ite(u.Eq(ab, bb), u.I(0), one)
			default:
				bit = u.Ite(u.And(u.Eq(ab, one), u.Eq(bb, u.I(0))), one, u.I(0))
			}
			parts = append(parts, u.Mul(u.Big(pow2(k)), bit))
		}
		r := u.Add(parts...)
		return r
	}
	r := u.App("bit"+fmt.Sprint(int(op))+t.Name(), SInt, a, b)
	lo, hi := intRange(t)
	return u.typeRange(r, lo, hi)
}

// maskConst: x & m for nonnegative x < 2^bits, as a sum over runs of ones.
func (u *U) maskConst(x *Term, m *big.Int, bits uint) *Term {
	r := u.I(0)
	for k := uint(0); k < bits; {
		if m.Bit(int(k)) == 0 {
			k++
			continue
		}
		j := k
		for j < bits && m.Bit(int(j)) == 1 {
			j++
		}
		// bits k..j-1
		v := u.Div(x, u.Big(pow2(k)))
		if j < bits || x.hi == nil || x.hi.BitLen() > int(j) {
			v = u.Mod(v, u.Big(pow2(j-k)))
		}
		r = u.Add(r, u.Mul(u.Big(pow2(k)), v))
		k = j
	}
	return r
}

func (e *Engine) shift(fr *Frame, st *State, op token.Token, a, b *Term, t *types.Basic, x *ssa.BinOp) *Term {
	u := e.u
	bits, _ := bitsOf(t)
	if sb := basicInt(x.Y.Type()); sb != nil {
		if lo, _ := intRange(sb); lo.Sign() < 0 && !b.isInt() {
			e.rtCheck(fr, st, u.Le(u.I(0), b), "shift", x.Pos())
		}
	}
	if b.isInt() {
		n := b.num.Uint64()
		if !b.num.IsUint64() || n > 128 {
			n = 128
		}
		if op == token.SHL {
			if uint(n) >= bits {
				return u.I(0)
			}
			return u.wrap(u.Mul(u.Big(pow2(uint(n))), a), t)
		}
		return u.Div(a, u.Big(pow2(uint(n))))
	}
	// symbolic shift: case split over amounts
	var r *Term
	if op == token.SHL {
		r = u.I(0)
	} else {
		r = u.Ite(u.Lt(a, u.I(0)), u.I(-1), u.I(0))
	}
	for n := int(bits) - 1; n >= 0; n-- {
		var v *Term
		if op == token.SHL {
			v = u.wrap(u.Mul(u.Big(pow2(uint(n))), a), t)
		} else {
			v = u.Div(a, u.Big(pow2(uint(n))))
		}
		r = u.Ite(u.Eq(b, u.I(int64(n))), v, r)
	}
	return r
}

func (e *Engine) convert(fr *Frame, st *State, x *ssa.Convert) Val {
	u := e.u
	v := e.val(fr, st, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	if tb, ok := to.(*types.Basic); ok {
		if fb, ok := from.(*types.Basic); ok {
			switch {
			case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
				return u.wrap(e.T(v), tb)
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
				return e.strSym(u.App("runestr", SStr, e.T(v)))
			case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
				return v
			case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
				panic(unsupported("unsafe"))
			default: // float conversions
				r := u.App("conv$"+fb.Name()+"$"+tb.Name(), SInt, e.T(v))
				if tb.Info()&types.IsInteger != 0 {
					lo, hi := intRange(tb)
					return u.typeRange(r, lo, hi)
				}
				return r
			}
		}
		if sl, ok := from.(*types.Slice); ok && tb.Info()&types.IsString != 0 {
			if b := basicInt(sl.Elem()); b != nil && b.Kind() == types.Uint8 {
				return e.bytesToStr(st, v.(SliceV))
			}
			panic(unsupported("[]rune to string"))
		}
	}
	if sl, ok := to.(*types.Slice); ok {
		if fb, ok := from.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if b := basicInt(sl.Elem()); b != nil && b.Kind() == types.Uint8 {
				return e.strToBytes(st, e.T(v))
			}
			panic(unsupported("string to []rune"))
		}
	}
	if _, ok := to.(*types.Pointer); ok {
		return v
	}
	panic(unsupported("convert " + x.String()))
}

type rangeIter struct {
	x Val
	t types.Type
}

func (e *Engine) next(fr *Frame, st *State, x *ssa.Next) Val {
	u := e.u
	it := e.val(fr, st, x.Iter).(*rangeIter)
	if x.IsString {
		s := e.T(it.x)
		// Position of the string iterator lives in a ghost cell keyed by the range instruction.
		key := "G$strpos$" + fr.fn.String() + "$" + x.Iter.Name()
		pos := u.typeRange(u.Select(e.heapGet(st, key, arr(SInt, SInt)), u.I(int64(fr.depth))), new(big.Int), maxLen)
		e.assume(st, u.Le(pos, e.slen(s)))
		ok := u.Lt(pos, e.slen(s))
		r := u.typeRange(u.App("runeAt", SInt, s, pos), big.NewInt(0), big.NewInt(0x10FFFF))
		w := u.typeRange(u.App("runeW", SInt, s, pos), big.NewInt(1), big.NewInt(4))
		b0 := e.sat(s, pos)
		if !pos.bound {
			e.assume(st, u.Imp(ok, u.And(
				u.Imp(u.Lt(b0, u.I(128)), u.And(u.Eq(r, b0), u.Eq(w, u.I(1)))),
				u.Imp(u.Le(u.I(128), b0), u.Le(u.I(128), r)),
				u.Imp(u.Lt(u.I(1), w), u.Le(u.I(128), e.sat(s, u.AddI(pos, 1)))),
				u.Imp(u.Lt(u.I(2), w), u.Le(u.I(128), e.sat(s, u.AddI(pos, 2)))),
				u.Imp(u.Lt(u.I(3), w), u.Le(u.I(128), e.sat(s, u.AddI(pos, 3)))),
				u.Le(u.Add(pos, w), e.slen(s)))))
		}
		e.heapSet(st, key, arr(SInt, SInt), u.I(int64(fr.depth)), u.Ite(ok, u.Add(pos, w), pos))
		return TupleV{ok, pos, r}
	}
	m := it.t.Underlying().(*types.Map)
	ok := u.Fresh("rangeok", SBool)
	kv := e.freshVal(st, m.Key(), "rangekey")
	ma := e.T(it.x)
	dom, val := e.mapGet(st, ma, m, kv)
	e.assume(st, u.Imp(ok, dom))
	return TupleV{ok, kv, val}
}

// rangeStart resets the string iterator when Range executes.
func (e *Engine) rangeReset(fr *Frame, st *State, x *ssa.Range) {
	key := "G$strpos$" + fr.fn.String() + "$" + x.Name()
	e.heapSet(st, key, arr(SInt, SInt), e.u.I(int64(fr.depth)), e.u.I(0))
}

// ---------- maps ----------

func mapHeap(m *types.Map) string { return "M$" + elemKey(m.Key()) + "$" + elemKey(m.Elem()) }

func (e *Engine) mapKey(m *types.Map, k Val) *Term {
	switch x := k.(type) {
	case *Term:
		return x
	case IfaceV:
		t := e.u.App("ifkey", SInt, x.tag, x.pay)
		if len(t.facts) == 0 && !t.bound {
			e.u.addFact(t, e.u.Eq(e.u.App("ifkey1", SInt, t), x.tag))
			e.u.addFact(t, e.u.Eq(e.u.App("ifkey2", SInt, t), x.pay))
		}
		return t
	case Ptr:
		return e.ptrTerm(x)
	}
	panic(unsupported("map key " + m.Key().String()))
}

func (e *Engine) keySort(m *types.Map) Sort {
	if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return SStr
	}
	if b, ok := m.Key().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return SBool
	}
	return SInt
}

func (e *Engine) newMap(st *State, m *types.Map) Val {
	a := e.alloc(st, "map")
	ks := e.keySort(m)
	e.heapSet(st, mapHeap(m)+".dom", arr(SInt, arr(ks, SBool)), a, e.u.ConstArr(arr(ks, SBool), e.u.False))
	e.heapSet(st, mapHeap(m)+".n", arr(SInt, SInt), a, e.u.I(0))
	return a
}

func (e *Engine) mapGet(st *State, a *Term, m *types.Map, k Val) (*Term, Val) {
	u := e.u
	ks := e.keySort(m)
	key := e.mapKey(m, k)
	dom := u.Select(u.Select(e.heapGet(st, mapHeap(m)+".dom", arr(SInt, arr(ks, SBool))), a), key)
	// reading a nil map finds nothing
	dom = u.And(u.Not(u.Eq(a, u.I(0))), dom)
	et := m.Elem()
	if isAgg(et) {
		s, ok := et.Underlying().(*types.Struct)
		if ok && s.NumFields() == 0 {
			return dom, &StructV{t: s}
		}
		sv := &StructV{t: s}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			var ts []*Term
			for _, c := range comps(ft) {
				h := e.heapGet(st, mapHeap(m)+".val."+s.Field(i).Name()+c.suffix, arr(SInt, arr(ks, c.sort)))
				ts = append(ts, u.Ite(dom, e.rangeTerm(c, u.Select(u.Select(h, a), key)), e.zeroComp(c)))
			}
			sv.f = append(sv.f, e.fromComps(st, ft, ts))
		}
		return dom, sv
	}
	var ts []*Term
	for _, c := range comps(et) {
		h := e.heapGet(st, mapHeap(m)+".val"+c.suffix, arr(SInt, arr(ks, c.sort)))
		x := e.rangeTerm(c, u.Select(u.Select(h, a), key))
		if c.ptr && !x.isInt() && !isAlloc(x) && !x.bound {
			e.assume(st, u.Lt(e.birth(x), st.top))
		}
		ts = append(ts, u.Ite(dom, x, e.zeroComp(c)))
	}
	return dom, e.fromComps(st, et, ts)
}

func (e *Engine) mapLookup(fr *Frame, st *State, x *ssa.Lookup) Val {
	m := x.X.Type().Underlying().(*types.Map)
	dom, v := e.mapGet(st, e.T(e.val(fr, st, x.X)), m, e.val(fr, st, x.Index))
	if x.CommaOk {
		return TupleV{v, dom}
	}
	return v
}

func (e *Engine) mapUpdate(fr *Frame, st *State, x *ssa.MapUpdate) {
	m := x.Map.Type().Underlying().(*types.Map)
	a := e.T(e.val(fr, st, x.Map))
	e.rtCheck(fr, st, e.u.Not(e.u.Eq(a, e.u.I(0))), "nilmap", x.Pos())
	e.mapSet(st, a, m, e.val(fr, st, x.Key), e.val(fr, st, x.Value))
}

func (e *Engine) mapSet(st *State, a *Term, m *types.Map, k, v Val) {
	u := e.u
	ks := e.keySort(m)
	key := e.mapKey(m, k)
	dn := mapHeap(m) + ".dom"
	ds := arr(SInt, arr(ks, SBool))
	row := u.Select(e.heapGet(st, dn, ds), a)
	nn := mapHeap(m) + ".n"
	cnt := u.Select(e.heapGet(st, nn, arr(SInt, SInt)), a)
	e.heapSet(st, nn, arr(SInt, SInt), a, u.Ite(u.Select(row, key), cnt, u.AddI(cnt, 1)))
	e.heapSet(st, dn, ds, a, u.Store(row, key, u.True))
	et := m.Elem()
	if isAgg(et) {
		s := et.Underlying().(*types.Struct)
		sv := v.(*StructV)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			vs := e.toComps(sv.f[i], ft)
			for j, c := range comps(ft) {
				hn := mapHeap(m) + ".val." + s.Field(i).Name() + c.suffix
				hs := arr(SInt, arr(ks, c.sort))
				e.heapSet(st, hn, hs, a, u.Store(u.Select(e.heapGet(st, hn, hs), a), key, vs[j]))
			}
		}
		return
	}
	vs := e.toComps(v, et)
	for j, c := range comps(et) {
		hn := mapHeap(m) + ".val" + c.suffix
		hs := arr(SInt, arr(ks, c.sort))
		e.heapSet(st, hn, hs, a, u.Store(u.Select(e.heapGet(st, hn, hs), a), key, vs[j]))
	}
}

func (e *Engine) mapDelete(st *State, a *Term, m *types.Map, k Val) {
	u := e.u
	ks := e.keySort(m)
	key := e.mapKey(m, k)
	dn := mapHeap(m) + ".dom"
	ds := arr(SInt, arr(ks, SBool))
	row := u.Select(e.heapGet(st, dn, ds), a)
	nn := mapHeap(m) + ".n"
	cnt := u.Select(e.heapGet(st, nn, arr(SInt, SInt)), a)
	e.heapSet(st, nn, arr(SInt, SInt), a, u.Ite(u.Select(row, key), u.AddI(cnt, -1), cnt))
	e.heapSet(st, dn, ds, a, u.Store(row, key, u.False))
}

// ---------- type assertions ----------

func (e *Engine) typeAssert(fr *Frame, st *State, x *ssa.TypeAssert, k func(*Frame, *State, Val)) {
	u := e.u
	v := e.val(fr, st, x.X).(IfaceV)
	at := x.AssertedType
	fork := func(c *Term, okVal func(st *State) Val) {
		if x.CommaOk {
			if e.feasible(st, c) {
				s2 := st.clone()
				e.assume(s2, c)
				k(fr.clone(), s2, TupleV{okVal(s2), u.True})
			}
			if e.feasible(st, u.Not(c)) {
				s2 := st.clone()
				e.assume(s2, u.Not(c))
				k(fr.clone(), s2, TupleV{e.zeroVal(at), u.False})
			}
			return
		}
		e.rtCheck(fr, st, c, "typeassert", x.Pos())
		e.assume(st, c)
		if !st.dead {
			k(fr, st, okVal(st))
		}
	}
	if it, ok := at.Underlying().(*types.Interface); ok {
		if v.dyn != nil {
			if e.P.implements(v.dyn, it) {
				fork(u.True, func(*State) Val { return v })
			} else {
				fork(u.False, func(*State) Val { return v })
			}
			return
		}
		c := u.And(u.Not(u.Eq(v.tag, u.I(0))), u.App("impl$"+typeKey(at), SBool, v.tag))
		if it.NumMethods() == 0 {
			c = u.Not(u.Eq(v.tag, u.I(0)))
		}
		fork(c, func(*State) Val { return v })
		return
	}
	if v.dyn != nil {
		if typeKey(v.dyn) == typeKey(at) {
			fork(u.True, func(*State) Val { return v.val })
		} else {
			fork(u.False, nil)
		}
		return
	}
	c := u.Eq(v.tag, u.I(e.P.tagOf(at)))
	fork(c, func(s *State) Val { return e.unbox(s, at, v.pay) })
}

// commHavoc: channel operation; results unknown, shared memory may have changed.
func (e *Engine) commHavoc(fr *Frame, st *State, ins ssa.Instruction) {
	e.trusted["channel operation abstracted in "+shortFn(fr.fn)] = true
	send := func(ch, x ssa.Value, cond *Term) {
		for i, r := range e.unit.OnSend {
			env := e.entryEnv(st)
			env.vars["msg"] = TV{e.val(fr, st, x), x.Type()}
			env.vars["ch"] = TV{e.val(fr, st, ch), ch.Type()}
			on, ok := e.onChan(r, env, x.Type())
			if !ok {
				continue
			}
			e.oblige(st, e.u.Imp(e.u.And(cond, on), e.evalBool(r.Expr, env)), "onsend:"+r.label(i), e.posStr(ins.Pos()))
		}
		e.count(st, "G$sends", e.T(e.val(fr, st, ch)), cond)
	}
	if s, ok := ins.(*ssa.Send); ok {
		send(s.Chan, s.X, e.u.True)
	}
	if s, ok := ins.(*ssa.Select); ok {
		e.selectStmt(fr, st, s, send)
		return
	}
	if len(e.unit.Shared) > 0 {
		e.interfere(st)
	} else {
		e.havocAll(st)
	}
	if v, ok := ins.(ssa.Value); ok {
		x := e.freshVal(st, v.Type(), "chan")
		fr.vals[v] = x
		if un, ok := ins.(*ssa.UnOp); ok {
			mt := un.X.Type().Underlying().(*types.Chan).Elem()
			got, m := e.u.True, x
			if tv, ok := x.(TupleV); ok {
				got, m = tv[1].(*Term), tv[0]
			}
			e.setReceived(st, m, mt, got)
			if got != e.u.True {
				e.assume(st, e.u.Imp(e.u.Not(got), e.valEq(st, m, e.zeroVal(mt), mt)))
			}
			for _, r := range e.unit.OnRecv {
				env := e.entryEnv(st)
				env.vars["msg"] = TV{m, mt}
				env.vars["ch"] = TV{e.val(fr, st, un.X), un.X.Type()}
				on, ok := e.onChan(r, env, mt)
				if !ok {
					continue
				}
				e.trusted["values received from channels in "+e.unit.Short()+": "+r.Src] = true
				e.assume(st, e.u.Imp(e.u.And(got, on), e.evalBool(r.Expr, env)))
			}
		}
	}
}

// interfere forgets the memory the contract says other goroutines may change.
// onChan: whether a clause about channel operations speaks of the channel env.vars["ch"].
func (e *Engine) onChan(r Clause, env *Env, elem types.Type) (*Term, bool) {
	if r.Chan == "" {
		return e.u.True, true
	}
	c, ok := env.vars[r.Chan]
	if !ok {
		sfail("no channel %s", r.Chan)
	}
	if !types.Identical(c.t.Underlying().(*types.Chan).Elem(), elem) {
		return nil, false
	}
	return e.u.Eq(e.payTerm(c), e.payTerm(env.vars["ch"])), true
}

// count adds one, under a condition, to a counter kept per object and in all.
func (e *Engine) count(st *State, name string, obj, cond *Term) {
	one := e.u.Ite(cond, e.u.I(1), e.u.I(0))
	add := func(n string, a *Term) {
		h := e.heapGet(st, n, arr(SInt, SInt))
		e.heapSet(st, n, arr(SInt, SInt), a, e.u.Add(e.u.Select(h, a), one))
	}
	add(name, obj)
	add(name+"$all", e.u.I(0))
}

// setReceived records a value received, for received() and recvs().
func (e *Engine) setReceived(st *State, v Val, t types.Type, got *Term) {
	u := e.u
	e.putGhost(st, "G$received$"+typeKey(t), v, t, got)
	n := "G$recvs$" + typeKey(t)
	h := e.heapGet(st, n, arr(SInt, SInt))
	e.heapSet(st, n, arr(SInt, SInt), u.I(0), u.Add(u.Select(h, u.I(0)), u.Ite(got, u.I(1), u.I(0))))
}

// selectStmt: one of the ready cases, or none for a select with a default.
func (e *Engine) selectStmt(fr *Frame, st *State, s *ssa.Select, send func(ch, x ssa.Value, cond *Term)) {
	u := e.u
	res := e.freshVal(st, s.Type(), "select").(TupleV)
	idx := res[0].(*Term)
	lo := int64(0)
	if !s.Blocking {
		lo = -1
	}
	e.assume(st, u.And(u.Le(u.I(lo), idx), u.Lt(idx, u.I(int64(len(s.States))))))
	for i, c := range s.States {
		if c.Dir == types.SendOnly {
			send(c.Chan, c.Send, u.Eq(idx, u.I(int64(i))))
		}
	}
	if len(e.unit.Shared) > 0 {
		e.interfere(st)
	} else {
		e.havocAll(st)
	}
	fr.vals[s] = res
	n := 2
	for i, c := range s.States {
		if c.Dir == types.SendOnly {
			continue
		}
		mt := c.Chan.Type().Underlying().(*types.Chan).Elem()
		e.setReceived(st, res[n], mt, u.And(u.Eq(idx, u.I(int64(i))), res[1].(*Term)))
		e.assume(st, u.Imp(u.And(u.Eq(idx, u.I(int64(i))), u.Not(res[1].(*Term))), e.valEq(st, res[n], e.zeroVal(mt), mt)))
		for _, r := range e.unit.OnRecv {
			env := e.entryEnv(st)
			env.vars["msg"] = TV{res[n], mt}
			env.vars["ch"] = TV{e.val(fr, st, c.Chan), c.Chan.Type()}
			on, ok := e.onChan(r, env, mt)
			if !ok {
				continue
			}
			e.trusted["values received from channels in "+e.unit.Short()+": "+r.Src] = true
			e.assume(st, u.Imp(u.And(u.Eq(idx, u.I(int64(i))), res[1].(*Term), on), e.evalBool(r.Expr, env)))
		}
		n++
	}
}

func (e *Engine) interfere(st *State) {
	if len(e.unit.Shared) == 0 {
		return
	}
	e.trusted["other goroutines change only the memory declared shared in the contract of "+e.unit.Short()] = true
	before := st.clone()
	env := e.entryEnv(st)
	for _, m := range e.unit.Shared {
		for _, l := range e.modLocs(m, env) {
			e.havocLoc(st, l)
		}
	}
	for _, r := range e.unit.Rely {
		re := e.entryEnv(st)
		re.old = before
		e.assume(st, e.evalBool(r.Expr, re))
	}
}

func (e *Engine) goStmt(fr *Frame, st *State, ins *ssa.Go) {
	// A spawned goroutine: the callee's precondition must hold at the spawn.
	what := "function value"
	if fn := ins.Call.StaticCallee(); fn != nil {
		what = shortFn(fn)
		var args []Val
		for _, a := range ins.Call.Args {
			args = append(args, e.val(fr, st, a))
		}
		c := e.P.contractFor(fn)
		if c != nil && len(fn.FreeVars) == 0 {
			env := e.callEnv(c, st, args)
			for i, r := range c.Requires {
				e.oblige(st, e.evalBool(r.Expr, env), fmt.Sprintf("spawn-requires:%s#%d", c.Short(), i), e.posStr(ins.Pos()))
			}
		}
		for i, r := range e.unit.Spawns {
			if r.Chan != "" && r.Chan != fn.Name() {
				continue
			}
			env := e.entryEnv(st)
			for j, p := range fn.Params {
				env.vars["spawn_"+p.Name()] = TV{args[j], p.Type()}
			}
			e.oblige(st, e.evalBool(r.Expr, env), "spawn:"+r.label(i), e.posStr(ins.Pos()))
		}
	}
	h := e.heapGet(st, "G$spawns", arr(SInt, SInt))
	e.heapSet(st, "G$spawns", arr(SInt, SInt), e.u.I(0), e.u.AddI(e.u.Select(h, e.u.I(0)), 1))
	e.trusted["go statement: the spawned function runs independently and its effects are not seen by "+shortFn(fr.fn)+" ("+what+")"] = true
}

// havocAll forgets everything about shared memory.
func (e *Engine) havocAll(st *State) {
	names := make([]string, 0, len(st.heap))
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasPrefix(n, "G$") && !strings.HasPrefix(n, "G$v$") {
			continue
		}
		delete(st.heap, n)
	}
	e.epochs++
	e.u.now++
	st.ep = e.epochs
	e.epMark[st.ep] = e.u.now
	for _, r := range e.recs {
		*r = append(*r, writeRec{"*", nil})
	}
	nt := e.u.Fresh("top", SInt)
	e.assume(st, e.u.Le(st.top, nt))
	st.top = nt
}
