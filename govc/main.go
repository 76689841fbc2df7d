package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog      *ssa.Program
	fs        *token.FileSet
	pkgs      map[string]*ssa.Package // short path -> package
	std       map[string]*ssa.Package
	funcs     map[string]*ssa.Function
	stdFuncs  map[string]*ssa.Function
	byName    map[string]*Contract
	contracts []*Contract
	preds     map[string]*Pred
	ghosts    map[string]*GhostFn
	verbose   int
	fbSec     int
	mu        sync.Mutex
	tags      map[string]int64
	tagTypes  map[int64]types.Type
	kinds     map[string]int64
	loops     map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	assigned  map[*ssa.Global]bool
	allPkgs   map[string]*types.Package
}

const modPrefix = "github.com/NVIDIA/vdisc/pkg/"

func loadProgram(dir string, patterns []string) (*Program, error) {
	p := &Program{pkgs: map[string]*ssa.Package{}, std: map[string]*ssa.Package{}, funcs: map[string]*ssa.Function{}, stdFuncs: map[string]*ssa.Function{}, byName: map[string]*Contract{},
		preds: map[string]*Pred{}, ghosts: map[string]*GhostFn{}, tags: map[string]int64{}, tagTypes: map[int64]types.Type{}, kinds: map[string]int64{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, assigned: map[*ssa.Global]bool{}, allPkgs: map[string]*types.Package{}}
	p.fs = token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: p.fs}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, x := range ps {
		for _, e := range x.Errors {
			return nil, fmt.Errorf("%s: %v", x.PkgPath, e)
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	for _, x := range sp {
		if x != nil {
			p.pkgs[strings.TrimPrefix(x.Pkg.Path(), modPrefix)] = x
			p.collectImports(x.Pkg)
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		p.funcs[fnName(f)] = f
		for _, b := range f.Blocks {
			if f.Name() == "init" && f.Synthetic != "" {
				continue
			}
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						p.assigned[g] = true
					}
				}
			}
		}
	}
	// standard library bodies for inlining
	cfg2 := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: p.fs}
	ps2, err := packages.Load(cfg2, "io", "sort", "bytes", "context", "io/fs")
	if err == nil {
		pr2, sp2 := ssautil.Packages(ps2, ssa.InstantiateGenerics)
		pr2.Build()
		for _, x := range sp2 {
			if x != nil {
				p.std[x.Pkg.Path()] = x
			}
		}
		for f := range ssautil.AllFunctions(pr2) {
			p.stdFuncs[fnName(f)] = f
		}
	}
	return p, nil
}

func (p *Program) collectImports(t *types.Package) {
	if p.allPkgs[t.Path()] != nil {
		return
	}
	p.allPkgs[t.Path()] = t
	for _, i := range t.Imports() {
		p.collectImports(i)
	}
}

func (p *Program) fset(pos token.Pos) string {
	x := p.fs.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(x.Filename, "/repo/"), x.Line)
}

func (p *Program) tagByName(n string) int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if t, ok := p.tags[n]; ok {
		return t
	}
	t := int64(len(p.tags) + 1)
	p.tags[n] = t
	return t
}

func (p *Program) tagOf(t types.Type) int64 {
	t = types.Unalias(t)
	n := p.tagByName(typeKey(t))
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.tagTypes[n] == nil {
		p.tagTypes[n] = t
	}
	return n
}

func (p *Program) tagType(n int64) types.Type {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.tagTypes[n]
}

func (p *Program) akind(s string) int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if t, ok := p.kinds[s]; ok {
		return t
	}
	t := int64(len(p.kinds) + 1)
	p.kinds[s] = t
	return t
}

func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loops[fn]; ok {
		return l
	}
	l := findLoops(fn)
	p.loops[fn] = l
	return l
}

func (p *Program) neverAssigned(g *ssa.Global) bool { return !p.assigned[g] }

func (p *Program) contractFor(fn *ssa.Function) *Contract {
	c := p.byName[fnName(fn)]
	if c == nil || c.Missing != "" {
		return nil
	}
	return c
}

// ifaceContract finds the contract of an interface method: by the interface
// named in the call, or by any embedded interface that declares the method.
func (p *Program) ifaceContract(it types.Type, m *types.Func) *Contract {
	if c := p.byName[typeKey(types.Unalias(it))+"."+m.Name()]; c != nil {
		return p.fixIface(c, m, it)
	}
	if sig, ok := m.Type().(*types.Signature); ok && sig.Recv() != nil {
		if c := p.byName[typeKey(types.Unalias(sig.Recv().Type()))+"."+m.Name()]; c != nil {
			return p.fixIface(c, m, sig.Recv().Type())
		}
	}
	return nil
}

func (p *Program) fixIface(c *Contract, m *types.Func, recv types.Type) *Contract {
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(c.Params) == 0 {
		sig := m.Type().(*types.Signature)
		ts := []types.Type{recv}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
		}
		for i, t := range ts {
			n := fmt.Sprintf("arg%d", i)
			if i < len(c.ParamNames) {
				n = c.ParamNames[i]
			}
			c.Params = append(c.Params, Param{n, t})
		}
	}
	return c
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	return p.methodByName(t, m.Name())
}

func (p *Program) methodByName(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	tt := t
	if pt, ok := tt.Underlying().(*types.Pointer); ok {
		tt = pt.Elem()
	}
	if n, ok := types.Unalias(tt).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	obj, _, _ := types.LookupFieldOrMethod(t, true, pkg, name)
	f, ok := obj.(*types.Func)
	if !ok {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	sel := types.NewMethodSet(t).Lookup(f.Pkg(), name)
	if sel == nil {
		sel = types.NewMethodSet(types.NewPointer(t)).Lookup(f.Pkg(), name)
	}
	if sel == nil {
		return nil
	}
	func() {
		defer func() { recover() }()
	}()
	return p.prog.MethodValue(sel)
}

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if ms.Lookup(m.Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}

func (p *Program) stdBody(fn *ssa.Function) *ssa.Function {
	return p.stdFuncs[fnName(fn)]
}

var inlineStd = map[string]bool{"io": true, "context": true}

func (p *Program) inlineOK(fn *ssa.Function) bool {
	pk := fn.Pkg
	f := fn
	for pk == nil && f.Parent() != nil {
		f = f.Parent()
		pk = f.Pkg
	}
	if pk == nil { // synthetic wrapper
		return true
	}
	path := pk.Pkg.Path()
	if strings.HasPrefix(path, "github.com/NVIDIA/vdisc/") {
		return true
	}
	return inlineStd[path] || path == "io/fs" && strings.HasPrefix(fnName(fn), "(io/fs.FileMode).") && fn.Name() != "String" ||
		path == "bytes" && (fn.Name() == "NewReader" || strings.HasPrefix(fnName(fn), "(*bytes.Reader)."))
}

func (p *Program) namedType(pkg, name string) types.Type {
	if t := p.allPkgs[pkg]; t != nil {
		if o := t.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	panic(unsupported("type " + pkg + "." + name))
}

func (p *Program) pkgByShort(from, name string) *ssa.Package {
	if pk := p.pkgs[from]; pk != nil {
		for _, i := range pk.Pkg.Imports() {
			if i.Name() == name {
				if x := p.pkgs[strings.TrimPrefix(i.Path(), modPrefix)]; x != nil {
					return x
				}
				if x := p.std[i.Path()]; x != nil {
					return x
				}
				return p.prog.Package(i)
			}
		}
	}
	if x := p.pkgs[name]; x != nil {
		return x
	}
	for k, x := range p.pkgs {
		if strings.HasSuffix(k, "/"+name) {
			return x
		}
	}
	if x := p.std[name]; x != nil {
		return x
	}
	return nil
}

func (p *Program) typeByExpr(pkg string, x ast.Expr) types.Type {
	switch n := x.(type) {
	case *ast.StarExpr:
		return types.NewPointer(p.typeByExpr(pkg, n.X))
	case *ast.UnaryExpr:
		return types.NewPointer(p.typeByExpr(pkg, n.X))
	case *ast.ParenExpr:
		return p.typeByExpr(pkg, n.X)
	case *ast.ArrayType:
		if n.Len == nil {
			return types.NewSlice(p.typeByExpr(pkg, n.Elt))
		}
	case *ast.Ident:
		if o := types.Universe.Lookup(n.Name); o != nil {
			return o.Type()
		}
		if pk := p.pkgs[pkg]; pk != nil {
			if o := pk.Pkg.Scope().Lookup(n.Name); o != nil {
				return o.Type()
			}
		}
	case *ast.SelectorExpr:
		if pk := p.pkgByShort(pkg, n.X.(*ast.Ident).Name); pk != nil {
			if o := pk.Pkg.Scope().Lookup(n.Sel.Name); o != nil {
				return o.Type()
			}
		}
		for _, t := range p.allPkgs {
			if t.Name() == n.X.(*ast.Ident).Name {
				if o := t.Scope().Lookup(n.Sel.Name); o != nil {
					return o.Type()
				}
			}
		}
	}
	sfail("unknown type in specification (package %s)", pkg)
	panic("")
}

// typeIn is the type of a parameter or result of a contract.
func (p *Program) typeIn(c *Contract, x string) types.Type {
	var sig *types.Signature
	var recv types.Type
	if c.Fn != nil {
		sig = c.Fn.Signature
		if sig.Recv() != nil {
			recv = sig.Recv().Type()
		}
	} else {
		i := strings.LastIndex(c.Name, ".")
		j := strings.LastIndex(c.Name[:i], ".")
		for path, pk := range p.allPkgs {
			if strings.TrimPrefix(path, modPrefix) != c.Name[:j] {
				continue
			}
			if o := pk.Scope().Lookup(c.Name[j+1 : i]); o != nil {
				recv = o.Type()
				m, _, _ := types.LookupFieldOrMethod(recv, true, pk, c.Name[i+1:])
				if f, ok := m.(*types.Func); ok {
					sig = f.Type().(*types.Signature)
				}
			}
		}
	}
	if sig == nil {
		return nil
	}
	var ts []types.Type
	if recv != nil {
		ts = append(ts, recv)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	for i, n := range c.ParamNames {
		if n == x && i < len(ts) {
			return ts[i]
		}
	}
	for i, n := range c.ResNames {
		if n == x && i < sig.Results().Len() {
			return sig.Results().At(i).Type()
		}
	}
	return nil
}

// resolve binds contracts to functions.
func (p *Program) resolve() {
	for _, c := range p.contracts {
		if c.Iface {
			continue
		}
		fn := p.funcs[c.Name]
		if fn == nil {
			fn = p.stdFuncs[c.Name]
		}
		if fn == nil {
			c.Missing = "function not found"
			continue
		}
		c.Fn = fn
		sig := fn.Signature
		var ts []types.Type
		var ns []string
		if sig.Recv() != nil {
			ts = append(ts, sig.Recv().Type())
			ns = append(ns, sig.Recv().Name())
		}
		for i := 0; i < sig.Params().Len(); i++ {
			ts = append(ts, sig.Params().At(i).Type())
			ns = append(ns, sig.Params().At(i).Name())
		}
		if len(c.ParamNames) > 0 && len(c.ParamNames) != len(ts) || len(c.ResNames) > 0 && len(c.ResNames) != sig.Results().Len() {
			c.Missing = "signature changed"
			continue
		}
		for i := range ts {
			n := ns[i]
			if len(c.ParamNames) > 0 {
				n = c.ParamNames[i]
			}
			c.Params = append(c.Params, Param{n, ts[i]})
		}
	}
}

type UnitResult struct {
	Name     string
	Props    []string
	Status   string // proved, failed, unsupported, missing
	Reason   string `json:",omitempty"`
	Obls     []*Obl
	Paths    int
	Loops    int
	Invs     int
	Seconds  float64
	Trusted  []string
	Inlined  []string
	Backends map[string]int
	VCs      int
	Proved   int
	Vacuous  bool
	Dead     []string // code of the function that no path reaches
	Covered  bool
}

func (p *Program) verify(c *Contract) (res *UnitResult) {
	t0 := time.Now()
	e := newEngine(p)
	e.unit = c
	if c.Timeout > 0 {
		e.timeout = c.Timeout
	}
	if c.MaxPath > 0 {
		e.maxPath = c.MaxPath
	}
	res = &UnitResult{Name: c.Name, Props: c.Props, Backends: map[string]int{}}
	defer func() {
		if e.smt.s != nil {
			e.smt.s.close()
		}
		res.Seconds = time.Since(t0).Seconds()
		for _, n := range e.order {
			o := e.obls[n]
			res.Obls = append(res.Obls, o)
			res.VCs += o.VCs
			res.Proved += o.Proved
			for b, k := range o.Backend {
				res.Backends[b] += k
			}
			if o.Failed != "" && res.Status != "unsupported" {
				res.Status = "failed"
			}
		}
		res.Paths, res.Loops, res.Invs = e.paths, e.loopsN, e.invs
		for k := range e.trusted {
			res.Trusted = append(res.Trusted, k)
		}
		for k := range e.inlined {
			res.Inlined = append(res.Inlined, k)
		}
		sort.Strings(res.Trusted)
		sort.Strings(res.Inlined)
		if res.Status != "unsupported" {
			res.Dead = e.unreached()
		}
		if res.Status == "" {
			res.Status = "proved"
			if res.Vacuous || !e.covered {
				res.Status = "failed"
				res.Reason = "vacuous: no path satisfies the precondition and reaches an exit"
			}
			if res.VCs == 0 {
				res.Status = "failed"
				res.Reason = "no obligations generated"
			}
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupportedErr:
				res.Status = "unsupported"
				res.Reason = x.Error()
			case outOfTime:
				res.Reason = string(x)
				if e.failed == 0 {
					res.Status = "unsupported"
				}
			case specErr:
				res.Status = "unsupported"
				res.Reason = "specification: " + x.Error()
			default:
				res.Status = "unsupported"
				res.Reason = fmt.Sprintf("generator error: %v", r)
				if p.verbose > 0 {
					fmt.Fprintf(os.Stderr, "%s: %v\n%s\n", c.Name, r, debug.Stack())
				}
			}
		}
	}()
	if c.Missing != "" {
		res.Status = "missing"
		res.Reason = c.Missing
		return
	}
	u := e.u
	top0 := u.Const("top0", SInt)
	u.addFact(top0, u.Le(u.I(1), top0))
	st := &State{heap: map[string]*Term{}, top: top0}
	e.entry = st
	e.envVars = map[string]TV{}
	var args []Val
	u.addFact(u.I(0), u.Eq(e.birth(u.I(0)), u.I(-1)))
	for _, prm := range c.Params {
		v := e.freshVal(st, prm.Type, "in$"+prm.Name)
		e.addReplay(prm.Name, v, prm.Type)
		args = append(args, v)
		e.envVars[prm.Name] = TV{v, prm.Type}
	}
	if c.Fn.Signature.Recv() != nil {
		if pv, ok := args[0].(Ptr); ok {
			e.assume(st, u.Not(u.Eq(pv.addr, u.I(0))))
		}
	}
	var binds []Val
	for i, fv := range c.Fn.FreeVars {
		v := e.freshVal(st, fv.Type(), "cap$"+fv.Name())
		if pv, ok := v.(Ptr); ok { // captured variables: distinct cells
			e.assume(st, u.Not(u.Eq(pv.addr, u.I(0))))
			for j, w := range c.Fn.FreeVars[:i] {
				if types.Identical(w.Type(), fv.Type()) {
					e.assume(st, u.Not(u.Eq(pv.addr, binds[j].(Ptr).addr)))
				}
			}
		}
		binds = append(binds, v)
		e.envVars[fv.Name()] = TV{v, fv.Type()}
	}
	e.capturedFuncs(st, c.Fn, binds)
	for _, f := range c.Free {
		x, err := parser.ParseExpr(f.typ)
		if err != nil {
			panic(err)
		}
		t := p.typeByExpr(c.PkgPath, x)
		e.envVars[f.name] = TV{e.freshVal(st, t, "free$"+f.name), t}
	}
	for i, b := range c.Bind { // bind x == T : fixes the dynamic type of an interface parameter
		_ = i
		call := b.Expr.(*ast.CallExpr)
		name := call.Args[0].(*ast.Ident).Name
		t := p.typeByExpr(c.PkgPath, call.Args[1])
		for j, prm := range c.Params {
			if prm.Name == name {
				old := args[j].(IfaceV)
				v := e.unbox(st, t, old.pay)
				nv := IfaceV{tag: u.I(p.tagOf(t)), pay: old.pay, dyn: t, val: v}
				e.assume(st, u.Not(u.Eq(old.pay, u.I(0))))
				args[j] = nv
				e.envVars[name] = TV{nv, prm.Type}
			}
		}
	}
	env := e.entryEnv(st)
	for _, r := range append(append(append([]Clause{}, c.Requires...), c.Steady...), c.Progress...) {
		e.assume(st, e.evalBool(r.Expr, env))
	}
	if !e.feasible(st, u.True) || st.dead {
		res.Vacuous = true
	} else if r, _ := e.smt.check(u.Script(e.pcTerms(st)), 2000, nil); r == "unsat" {
		res.Vacuous = true
	}
	work := st.clone()
	e.runFunc(c.Fn, args, binds, work, nil, func(st2 *State, rs []Val) {
		if st2.dead {
			return
		}
		if !e.covered {
			if r, _ := e.smt.check(u.Script(e.pcTerms(st2)), 1000, nil); r != "unsat" {
				e.covered = true
			}
		}
		env2 := e.entryEnv(st2)
		env2.oldv = map[string]TV{}
		for k, v := range e.envVars {
			env2.oldv[k] = v
		}
		n := c.Fn.Signature.Results().Len()
		for i := 0; i < n; i++ {
			rv := c.Fn.Signature.Results().At(i)
			env2.bindResult(i, n, rv.Name(), TV{rs[i], rv.Type()})
		}
		for _, a := range c.Asserts {
			e.oblige(st2, e.evalBool(a.Expr, env2), "assert:"+a.label(0), a.Src)
		}
		for i, s := range c.Steady {
			e.oblige(st2, e.evalBool(s.Expr, env2), "steady:"+s.label(i), s.Src)
		}
		for i, s := range c.Progress {
			t := c.Fn.Signature.Results().At(n - 1).Type()
			e.oblige(st2, u.Imp(u.Eq(e.toComps(rs[n-1], t)[0], u.I(0)), e.evalBool(s.Expr, env2)), "progress:"+s.label(i), s.Src)
		}
		for i, en := range c.Ensures {
			if en.Assumed {
				continue
			}
			e.oblige(st2, e.evalBool(en.Expr, env2), "ensures:"+en.label(i), en.Src)
		}
		if c.MustPanic {
			e.oblige(st2, u.Not(e.evalBool(c.Panics, e.entryEnv(e.entry))), "must-panic", c.PanicsSrc)
		}
		e.checkFrame(c, st2)
	})
	if c.MustPanic || c.Panics != nil {
		e.covered = true
	}
	return
}

func (e *Engine) addReplay(name string, v Val, t types.Type) {
	switch x := v.(type) {
	case *Term:
		if x.isSym && x.sort != SStr {
			e.replay = append(e.replay, replayVar{name, x})
		}
	case SliceV:
		e.replay = append(e.replay, replayVar{"len(" + name + ")", x.len})
	}
}

// checkFrame: memory that existed at entry and is not listed in modifies is unchanged.
func (e *Engine) checkFrame(c *Contract, st *State) {
	u := e.u
	for _, m := range c.Modifies {
		if m.Src == "*" {
			return
		}
	}
	if st.ep != 0 {
		e.oblige(st, u.False, "frame:everything", "an unmodelled call may change any memory")
		return
	}
	env := e.entryEnv(e.entry)
	var locs []modLoc
	for _, m := range c.Modifies {
		locs = append(locs, e.modLocs(m, env)...)
	}
	names := make([]string, 0, len(st.heap))
	for n := range st.heap {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasPrefix(n, "G$") && !strings.HasPrefix(n, "G$v$") && n != "G$spawns" {
			continue
		}
		h := st.heap[n]
		h0, ok := e.entry.heap[n]
		if !ok {
			h0 = u.Const("H0$"+n, h.sort)
		}
		if h == h0 {
			continue
		}
		any := false
		var at []modLoc
		for _, l := range locs {
			if l.heap == n {
				if l.any {
					any = true
				}
				at = append(at, l)
			}
		}
		if any {
			continue
		}
		// quick syntactic check over the store chain
		okAll := true
		x := h
		for x.op == "store" {
			a := x.args[1]
			r := allocRoot(a)
			if !(isAlloc(r) && strings.HasPrefix(r.op, "new$")) {
				hit := false
				for _, l := range at {
					if l.lo == nil && l.addr == a {
						hit = true
					}
				}
				if !hit {
					okAll = false
					break
				}
			}
			x = x.args[0]
		}
		if okAll && x == h0 {
			e.obligeTrue("frame:" + n)
			continue
		}
		sk := u.Fresh("fr", SInt)
		cond := u.Lt(e.birth(sk), e.entry.top)
		_, vs := h.sort.elem()
		var allowed []*Term
		for _, l := range at {
			if l.lo == nil {
				allowed = append(allowed, u.Eq(sk, l.addr))
			}
		}
		goal := u.Or(append(allowed, u.Eq(u.Select(h, sk), u.Select(h0, sk)))...)
		hasRange := false
		for _, l := range at {
			if l.lo != nil {
				hasRange = true
			}
		}
		if vs.isArr() {
			ks, _ := vs.elem()
			i := u.Fresh("fri", ks)
			eq := u.Eq(u.Select(u.Select(h, sk), i), u.Select(u.Select(h0, sk), i))
			alts := append([]*Term(nil), allowed...)
			if hasRange {
				for _, l := range at {
					if l.lo != nil {
						alts = append(alts, u.And(u.Eq(sk, l.addr), u.Le(l.lo, i), u.Lt(i, l.hi)))
					}
				}
			}
			goal = u.Or(append(alts, eq)...)
		}
		e.oblige(st.clone(), u.Imp(cond, goal), "frame:"+n, "memory outside modifies unchanged")
	}
}

func (e *Engine) obligeTrue(kind string) {
	if e.dry > 0 {
		return
	}
	name := e.oblName(kind)
	o := e.obls[name]
	if o == nil {
		o = &Obl{Name: name, Backend: map[string]int{}}
		e.obls[name] = o
		e.order = append(e.order, name)
	}
	o.VCs++
	o.Proved++
	o.Backend["simplifier"]++
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "only contracts of this property")
	fn := flag.String("fn", "", "only functions whose name contains this")
	out := flag.String("out", "", "JSON result file")
	verbose := flag.Int("v", 0, "verbosity")
	fb := flag.Int("fallback", 30, "seconds for fallback solvers")
	dump := flag.String("dump", "", "directory for failed queries")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel workers")
	limit := flag.Int("limit", 0, "seconds after which the remaining obligations are left undecided")
	pf := flag.Bool("ssa", false, "print SSA of selected functions")
	flag.Parse()
	debug.SetMaxStack(4 << 30)
	t0 := time.Now()
	if *limit > 0 {
		deadline = t0.Add(time.Duration(*limit) * time.Second)
	}
	p, err := loadProgram(*repo, []string{"./pkg/..."})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	p.verbose = *verbose
	p.fbSec = *fb
	if err := p.loadContracts(*specs); err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	p.resolve()
	loadT := time.Since(t0)
	var sel []*Contract
	for _, c := range p.contracts {
		if c.Trusted {
			continue
		}
		if *fn != "" && !strings.Contains(c.Name, *fn) {
			continue
		}
		if *prop != "" {
			ok := false
			for _, x := range c.Props {
				ok = ok || x == *prop
			}
			if !ok {
				continue
			}
		}
		sel = append(sel, c)
	}
	if *pf {
		for _, c := range sel {
			if c.Fn != nil {
				c.Fn.WriteTo(os.Stdout)
				for _, a := range c.Fn.AnonFuncs {
					a.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	results := make([]*UnitResult, len(sel))
	sem := make(chan bool, *jobs)
	var wg sync.WaitGroup
	for i, c := range sel {
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			results[i] = p.verify(c)
		}(i, c)
	}
	wg.Wait()
	bad := 0
	for _, r := range results {
		mark := "ok  "
		if r.Status != "proved" {
			mark = "FAIL"
			bad++
		}
		if *verbose > 0 || r.Status != "proved" {
			fmt.Printf("%s %-60s %-11s vcs=%d/%d paths=%d loops=%d invs=%d %.1fs %s\n", mark, r.Name, r.Status, r.Proved, r.VCs, r.Paths, r.Loops, r.Invs, r.Seconds, r.Reason)
		}
		for _, o := range r.Obls {
			if o.Failed != "" {
				fmt.Printf("     failed %s (%s) %s\n", o.Name, o.Failed, o.Detail)
				if len(o.Model) > 0 {
					fmt.Printf("       model %v\n", o.Model)
				}
				if *dump != "" {
					os.MkdirAll(*dump, 0755)
					os.WriteFile(filepath.Join(*dump, sanitize(o.Name)+".smt2"), []byte("(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"+o.Script+"(check-sat)\n"), 0644)
				}
			} else if *verbose > 1 {
				fmt.Printf("     ok %s %d/%d %v\n", o.Name, o.Proved, o.VCs, o.Backend)
			}
		}
		if *verbose > 1 {
			for _, t := range r.Trusted {
				fmt.Println("     trusts", t)
			}
		}
	}
	fmt.Printf("load %.2fs, %d functions, %d not proved, %d queries, solver %.1fs, fallback %d (%.1fs), total %.1fs\n", loadT.Seconds(), len(results), bad, gstats.Queries, float64(gstats.NanosZ3)/1e9, gstats.Fallback, float64(gstats.NanosFB)/1e9, time.Since(t0).Seconds())
	if *out != "" {
		js, _ := json.MarshalIndent(map[string]interface{}{"units": results, "queries": gstats.Queries, "solver_s": float64(gstats.NanosZ3+gstats.NanosFB) / 1e9, "fallbacks": gstats.Fallback, "load_s": loadT.Seconds()}, "", " ")
		os.WriteFile(*out, js, 0644)
	}
}

// capturedFuncs: a captured variable that is assigned once, with a function
// literal of the enclosing function, holds that literal.
func (e *Engine) capturedFuncs(st *State, fn *ssa.Function, binds []Val) {
	if fn.Parent() == nil {
		return
	}
	var mc *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, i := range b.Instrs {
			if m, ok := i.(*ssa.MakeClosure); ok && m.Fn == fn {
				mc = m
			}
		}
	}
	if mc == nil {
		return
	}
	for i, fv := range fn.FreeVars {
		pt, ok := fv.Type().(*types.Pointer)
		if !ok {
			continue
		}
		if _, ok := pt.Elem().Underlying().(*types.Signature); !ok {
			continue
		}
		m2, ok := assignedOnce(mc.Bindings[i]).(*ssa.MakeClosure)
		if !ok {
			continue
		}
		g := FuncV{fn: m2.Fn.(*ssa.Function)}
		for _, b := range m2.Bindings {
			var v Val
			for j, x := range mc.Bindings {
				if x == b {
					v = binds[j]
				}
			}
			if v == nil {
				break
			}
			g.bind = append(g.bind, v)
		}
		if len(g.bind) < len(m2.Bindings) {
			// it uses a variable this closure knows nothing about
			continue
		}
		e.store(st, binds[i].(Ptr), pt.Elem(), g)
	}
}

// assignedOnce is the only value ever stored in a local variable, or nil.
func assignedOnce(v ssa.Value) ssa.Value {
	var val ssa.Value
	n := 0
	var scan func(x ssa.Value)
	scan = func(x ssa.Value) {
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr == x {
					val = y.Val
				}
				n++
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				for i, b := range y.Bindings {
					if b == x {
						scan(y.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			default:
				n += 2
			}
		}
	}
	scan(v)
	if n != 1 {
		return nil
	}
	return val
}

// unreached lists the statements of the unit that no explored path runs: code
// the contracts say cannot run. Calls that never return end a path.
func (e *Engine) unreached() (out []string) {
	for _, b := range e.unit.Fn.Blocks {
		if e.reached[b] || b == e.unit.Fn.Recover {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
			continue
		}
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				out = append(out, e.posStr(i.Pos()))
				break
			}
		}
	}
	return
}
