package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Engine) calleeVal(fr *Frame, st *State, c *ssa.CallCommon) Val {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return e.val(fr, st, c.Value)
}

func (e *Engine) call(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, rt types.Type, k func(*State, Val)) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(fr, st, a))
	}
	var fv Val
	if c.IsInvoke() {
		fv = e.val(fr, st, c.Value)
	} else {
		fv = e.calleeVal(fr, st, c)
	}
	e.callVal(fr, st, c, fv, args, pos, rt, k)
}

func resultVal(res []Val) Val {
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	return TupleV(res)
}

func (e *Engine) callVal(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, pos token.Pos, rt types.Type, k func(*State, Val)) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		e.builtin(fr, st, b, c, args, pos, rt, k)
		return
	}
	if c.IsInvoke() {
		e.invoke(fr, st, fv.(IfaceV), c.Value.Type(), c.Method, args, pos, k)
		return
	}
	f, ok := fv.(FuncV)
	if !ok {
		panic(unsupported("call of non-function value"))
	}
	if f.fn == nil {
		// function kept in a field: contract of the field, if any
		if ct := e.P.byName[fieldName(c.Value)]; ct != nil {
			e.funcContract(fr, st, ct, f, c.Value.Type(), args, pos, k)
			return
		}
	}
	e.callFuncV(fr, st, f, c.Value.Type(), args, pos, k)
}

// fieldName names the struct field a value was loaded from.
func fieldName(v ssa.Value) string {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return ""
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	t := fa.X.Type().Underlying().(*types.Pointer).Elem()
	return typeKey(types.Unalias(t)) + "." + t.Underlying().(*types.Struct).Field(fa.Field).Name()
}

func (e *Engine) funcContract(fr *Frame, st *State, ct *Contract, f FuncV, ft types.Type, args []Val, pos token.Pos, k func(*State, Val)) {
	sig := ft.Underlying().(*types.Signature)
	e.P.mu.Lock()
	if len(ct.Params) == 0 {
		for i, pn := range ct.ParamNames {
			pt := ft
			if i > 0 {
				pt = sig.Params().At(i - 1).Type()
			}
			ct.Params = append(ct.Params, Param{pn, pt})
		}
	}
	e.P.mu.Unlock()
	if f.t != nil {
		e.rtCheck(fr, st, e.u.Not(e.u.Eq(f.t, e.u.I(0))), "nilfunc", pos)
	}
	e.applyContract(fr, st, ct, append([]Val{f}, args...), sig, pos, k)
}

func (e *Engine) callFuncV(fr *Frame, st *State, f FuncV, ft types.Type, args []Val, pos token.Pos, k func(*State, Val)) {
	if f.fn != nil {
		e.callFn(fr, st, f.fn, args, f.bind, pos, k)
		return
	}
	if f.t != nil && f.t.op == "ite" {
		// function chosen by a condition
		for i, cond := range []*Term{f.t.args[0], e.u.Not(f.t.args[0])} {
			if e.feasible(st, cond) {
				s2 := st.clone()
				e.assume(s2, cond)
				g, ok := e.funcReg[f.t.args[1+i]]
				if !ok {
					g = FuncV{t: f.t.args[1+i]}
				}
				e.callFuncV(fr, s2, g, ft, args, pos, k)
			}
		}
		return
	}
	sig := ft.Underlying().(*types.Signature)
	// unknown function value: contract of the named function type, if any
	if n, ok := types.Unalias(ft).(*types.Named); ok {
		if ct := e.P.byName[typeKey(n)]; ct != nil {
			e.funcContract(fr, st, ct, f, ft, args, pos, k)
			return
		}
	}
	if f.t != nil {
		e.rtCheck(fr, st, e.u.Not(e.u.Eq(f.t, e.u.I(0))), "nilfunc", pos)
	}
	e.unknownCall(fr, st, "function value of type "+typeKey(ft), sig, k)
}

func (e *Engine) unknownCall(fr *Frame, st *State, what string, sig *types.Signature, k func(*State, Val)) {
	e.trusted["unmodelled call (memory forgotten, any result): "+what] = true
	e.havocAll(st)
	k(st, e.freshResults(st, sig))
}

func (e *Engine) freshResults(st *State, sig *types.Signature) Val {
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, e.freshVal(st, sig.Results().At(i).Type(), "res"))
	}
	return resultVal(res)
}

func (e *Engine) invoke(fr *Frame, st *State, recv IfaceV, it types.Type, m *types.Func, args []Val, pos token.Pos, k func(*State, Val)) {
	u := e.u
	e.rtCheck(fr, st, u.Not(u.Eq(recv.tag, u.I(0))), "nil", pos)
	if st.dead {
		return
	}
	if recv.dyn != nil {
		fn := e.P.method(recv.dyn, m)
		if fn != nil {
			rv := recv.val
			if rv == nil {
				rv = e.unbox(st, recv.dyn, recv.pay)
			}
			e.callFn(fr, st, fn, append([]Val{rv}, args...), nil, pos, k)
			return
		}
	}
	sig := m.Type().(*types.Signature)
	all := append([]Val{recv}, args...)
	if in, ok := ifaceIntrinsics[typeKey(types.Unalias(it))+"."+m.Name()]; ok {
		in(e, fr, st, all, pos, k)
		return
	}
	if ct := e.P.ifaceContract(it, m); ct != nil {
		e.applyContract(fr, st, ct, all, sig, pos, k)
		return
	}
	if sig.Recv() != nil {
		if in, ok := ifaceIntrinsics[typeKey(types.Unalias(sig.Recv().Type()))+"."+m.Name()]; ok {
			in(e, fr, st, all, pos, k)
			return
		}
	}
	if in, ok := ifaceIntrinsics["*."+m.Name()]; ok {
		in(e, fr, st, all, pos, k)
		return
	}
	e.unknownCall(fr, st, typeKey(it)+"."+m.Name(), sig, k)
}

func (e *Engine) callFn(fr *Frame, st *State, fn *ssa.Function, args []Val, bind []Val, pos token.Pos, k func(*State, Val)) {
	name := fnName(fn)
	if in, ok := intrinsics[name]; ok {
		in(e, fr, st, args, pos, k)
		return
	}
	if name == "io.Copy" && isDiscard(args[0]) {
		// copying to the discarding writer only consumes the reader
		e.trusted["io.Copy to the discarding writer only consumes the reader"] = true
		v := e.viewOf(st, TV{args[1], fn.Signature.Params().At(1).Type()})
		d := e.u.typeRange(e.u.Fresh("rd", SInt), new(big.Int), maxLen)
		e.assume(st, e.u.Le(d, v.avail))
		v.advance(st, d)
		k(st, e.freshResults(st, fn.Signature))
		return
	}
	if ct := e.P.contractFor(fn); ct != nil && !ct.InlineSelf && len(fn.FreeVars) == 0 {
		e.applyContract(fr, st, ct, args, fn.Signature, pos, k)
		return
	}
	if p := pureExternal(name); p != "" {
		e.pureCall(st, name, fn.Signature, args, p, k)
		return
	}
	body := fn
	if len(body.Blocks) == 0 {
		if b := e.P.stdBody(fn); b != nil {
			body = b
		}
	}
	if len(body.Blocks) > 0 && e.mayInline(fr, body) {
		e.inlined[shortFn(body)] = true
		e.runFunc(body, args, bind, st, fr, func(st2 *State, res []Val) {
			k(st2, resultVal(res))
		})
		return
	}
	e.unknownCall(fr, st, name, fn.Signature, k)
}

func isDiscard(v Val) bool {
	iv, ok := v.(IfaceV)
	return ok && iv.pay.op == "select" && strings.HasSuffix(iv.pay.args[1].op, "Discard") && strings.HasPrefix(iv.pay.args[1].op, "glob$io")
}

func (e *Engine) mayInline(fr *Frame, fn *ssa.Function) bool {
	if fr.depth > 12 {
		return false
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return false // recursion
		}
	}
	if fn.Pkg == nil && fn.Parent() == nil && fn.Synthetic == "" {
		return false
	}
	if fn.Recover != nil && hasRecover(fn) {
		return false
	}
	return e.P.inlineOK(fn)
}

func hasRecover(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

// pureCall models an external function as an uninterpreted (or arbitrary) one
// that touches no memory visible to the verified code.
func (e *Engine) pureCall(st *State, name string, sig *types.Signature, args []Val, mode string, k func(*State, Val)) {
	e.trusted["no side effects on verified state: "+name] = true
	if mode == "fn" {
		var ts []*Term
		ok := true
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, is := r.(unsupportedErr); !is {
						panic(r)
					}
					ok = false
				}
			}()
			for i, a := range args {
				var at types.Type
				if sig.Recv() != nil {
					if i > 0 {
						at = sig.Params().At(i - 1).Type()
					} else {
						at = sig.Recv().Type()
					}
				} else {
					at = sig.Params().At(i).Type()
				}
				if sl, isS := at.Underlying().(*types.Slice); isS {
					if b := basicInt(sl.Elem()); b != nil && b.Kind() == types.Uint8 {
						ts = append(ts, e.bytesToStr(st, a.(SliceV)))
						continue
					}
					ok = false
					return
				}
				ts = append(ts, e.toComps(a, at)...)
			}
		}()
		if ok {
			var res []Val
			for i := 0; i < sig.Results().Len(); i++ {
				rt := sig.Results().At(i).Type()
				if isAgg(rt) {
					ok = false
					break
				}
				cs := comps(rt)
				var rs []*Term
				for _, c := range cs {
					if c.ptr && len(cs) == 1 { // references: cannot be shared between calls
						ok = false
					}
					rs = append(rs, e.rangeTerm(c, e.u.App(fmt.Sprintf("ext$%s$%d%s", name, i, c.suffix), c.sort, ts...)))
				}
				if !ok {
					break
				}
				if _, isSl := rt.Underlying().(*types.Slice); isSl {
					ok = false
					break
				}
				res = append(res, e.fromComps(st, rt, rs))
			}
			if ok {
				k(st, resultVal(res))
				return
			}
		}
	}
	v := e.freshResults(st, sig)
	k(st, v)
}

// ---------- builtins ----------

func (e *Engine) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, pos token.Pos, rt types.Type, k func(*State, Val)) {
	u := e.u
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case SliceV:
			if b.Name() == "len" {
				k(st, x.len)
			} else {
				k(st, x.cap)
			}
			return
		case *ArrayV:
			k(st, u.I(x.n))
			return
		case *Term:
			if x.sort == SStr {
				k(st, e.slen(x))
				return
			}
			if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
				h := e.heapGet(st, mapHeap(m)+".n", arr(SInt, SInt))
				k(st, u.Ite(u.Eq(x, u.I(0)), u.I(0), u.typeRange(u.Select(h, x), new(big.Int), maxLen)))
				return
			}
			// channel length
			k(st, u.typeRange(u.Fresh("chanlen", SInt), new(big.Int), maxLen))
			return
		case Ptr:
			a := c.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			k(st, u.I(a.Len()))
			return
		}
	case "append":
		e.appendOp(fr, st, c, args, pos, k)
		return
	case "copy":
		e.copyOp(fr, st, c, args, k)
		return
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		e.mapDelete(st, e.T(args[0]), m, args[1])
		k(st, nil)
		return
	case "close":
		e.rtCheck(fr, st, u.Not(u.Eq(e.T(args[0]), u.I(0))), "closenil", pos)
		for i, r := range e.unit.OnClose {
			env := e.entryEnv(st)
			env.vars["ch"] = TV{args[0], c.Args[0].Type()}
			on, ok := e.onChan(r, env, c.Args[0].Type().Underlying().(*types.Chan).Elem())
			if ok {
				e.oblige(st, u.Imp(on, e.evalBool(r.Expr, env)), "onclose:"+r.label(i), e.posStr(pos))
			}
		}
		e.count(st, "G$closes", e.T(args[0]), u.True)
		k(st, nil)
		return
	case "min", "max":
		r := e.T(args[0])
		for _, a := range args[1:] {
			t := e.T(a)
			if b.Name() == "min" {
				r = u.Ite(u.Lt(t, r), t, r)
			} else {
				r = u.Ite(u.Lt(r, t), t, r)
			}
		}
		k(st, r)
		return
	case "print", "println":
		k(st, nil)
		return
	case "recover":
		k(st, e.zeroVal(rt))
		return
	case "ssa:wrapnilchk":
		p := args[0].(Ptr)
		e.nilCheck(fr, st, p, pos)
		k(st, p)
		return
	}
	panic(unsupported("builtin " + b.Name()))
}

// copyElems copies n elements between slices of element type et.
func (e *Engine) copyElems(st *State, et types.Type, dref, doff, sref, soff, n *Term) {
	u := e.u
	if isAgg(et) {
		if !isStruct(et) {
			panic(unsupported("copy of arrays"))
		}
		e.copyStructs(st, et, dref, doff, sref, soff, n)
		return
	}
	for _, c := range comps(et) {
		hn := "E$" + elemKey(et) + c.suffix
		hs := arr(SInt, arr(SInt, c.sort))
		h := e.heapGet(st, hn, hs)
		e.heapSet(st, hn, hs, dref, e.acopy(u.Select(h, dref), doff, u.Select(h, sref), soff, n))
	}
}

// copyStructs: field-wise copy of n struct elements into a fresh or existing array.
func (e *Engine) copyStructs(st *State, et types.Type, dref, doff, sref, soff, n *Term) {
	u := e.u
	s := et.Underlying().(*types.Struct)
	if n.isInt() && n.num.IsInt64() && n.num.Int64() <= 8 {
		// element by element; sources read first
		var vs []Val
		for j := int64(0); j < n.num.Int64(); j++ {
			vs = append(vs, e.load(st, e.elemPtr(et, sref, u.AddI(soff, j)), et))
		}
		for j, v := range vs {
			e.store(st, e.elemPtr(et, dref, u.AddI(doff, int64(j))), et, v)
		}
		return
	}
	for f := 0; f < s.NumFields(); f++ {
		ft := s.Field(f).Type()
		if isAgg(ft) {
			panic(unsupported("copy of nested aggregates"))
		}
		for _, c := range comps(ft) {
			hn := structKeyOf(et) + "." + s.Field(f).Name() + c.suffix
			hs := arr(SInt, c.sort)
			h := e.heapGet(st, hn, hs)
			nh := u.Fresh("cp$"+hn, hs)
			// elements of the destination range take the source values
			i := u.BVar("i", SInt)
			d := e.elemAddr(et, dref, i)
			raw := u.Select(nh, d)
			src := u.Select(h, e.elemAddr(et, sref, u.Add(soff, u.Sub(i, doff))))
			e.assume(st, u.Forall([]*Term{i}, u.Imp(u.And(u.Le(doff, i), u.Lt(i, u.Add(doff, n))), u.Eq(raw, src)), []*Term{raw}))
			// everything else unchanged
			x := u.BVar("x", SInt)
			rx := u.Select(nh, x)
			ek := "ea$" + elemKey(et)
			inRange := u.And(u.Eq(u.App("akind", SInt, x), u.I(e.P.akind(ek))), u.Eq(u.App("inv1$"+ek, SInt, x), dref),
				u.Le(doff, u.App("inv2$"+ek, SInt, x)), u.Lt(u.App("inv2$"+ek, SInt, x), u.Add(doff, n)))
			e.assume(st, u.Forall([]*Term{x}, u.Or(inRange, u.Eq(rx, u.Select(h, x))), []*Term{rx}))
			st.heap[hn] = nh
			for _, r := range e.recs {
				// written addresses are elements of dref
				*r = append(*r, writeRec{hn, e.elemAddr(et, dref, u.Fresh("anyidx", SInt))})
			}
		}
	}
}

func (e *Engine) copyOp(fr *Frame, st *State, c *ssa.CallCommon, args []Val, k func(*State, Val)) {
	u := e.u
	d := args[0].(SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if s, ok := args[1].(*Term); ok {
		n := e.minTerm(st, d.len, e.slen(s))
		h := e.heapGet(st, "E$uint8", arr(SInt, sArrII))
		e.heapSet(st, "E$uint8", arr(SInt, sArrII), d.ref, e.acopy(u.Select(h, d.ref), d.off, e.sarr(s), u.I(0), n))
		k(st, n)
		return
	}
	s := args[1].(SliceV)
	n := e.minTerm(st, d.len, s.len)
	e.copyElems(st, et, d.ref, d.off, s.ref, s.off, n)
	k(st, n)
}

func (e *Engine) minTerm(st *State, a, b *Term) *Term {
	u := e.u
	c := u.Le(a, b)
	if c == u.True {
		return a
	}
	if c == u.False {
		return b
	}
	if e.valid(st, c) {
		return a
	}
	if e.valid(st, u.Le(b, a)) {
		return b
	}
	return u.Ite(c, a, b)
}

func (e *Engine) appendOp(fr *Frame, st *State, c *ssa.CallCommon, args []Val, pos token.Pos, k func(*State, Val)) {
	u := e.u
	s := args[0].(SliceV)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	var xref, xoff, n *Term
	var xrow *Term
	if t, ok := args[1].(*Term); ok { // append([]byte, string...)
		n = e.slen(t)
		xrow = e.sarr(t)
		xoff = u.I(0)
	} else {
		x := args[1].(SliceV)
		xref, xoff, n = x.ref, x.off, x.len
	}
	nl := u.Add(s.len, n)
	put := func(st *State, dref, doff *Term) {
		if xrow != nil {
			h := e.heapGet(st, "E$uint8", arr(SInt, sArrII))
			e.heapSet(st, "E$uint8", arr(SInt, sArrII), dref, e.acopy(u.Select(h, dref), doff, xrow, xoff, n))
			return
		}
		e.copyElems(st, et, dref, doff, xref, xoff, n)
	}
	if n.isInt() && n.num.Sign() == 0 {
		k(st, s)
		return
	}
	e.assume(st, u.Le(nl, u.Big(maxLen)))
	fits := u.Le(nl, s.cap)
	if e.feasible(st, fits) {
		s2 := st.clone()
		e.assume(s2, fits)
		put(s2, s.ref, u.Add(s.off, s.len))
		k(s2, SliceV{s.ref, s.off, nl, s.cap})
	}
	if e.feasible(st, u.Not(fits)) {
		s2 := st.clone()
		e.assume(s2, u.Not(fits))
		ref := e.alloc(s2, "arr$"+elemKey(et))
		nc := u.typeRange(u.Fresh("cap", SInt), new(big.Int), maxLen)
		e.assume(s2, u.Le(nl, nc))
		e.copyElems(s2, et, ref, u.I(0), s.ref, s.off, s.len)
		put(s2, ref, s.len)
		k(s2, SliceV{ref, u.I(0), nl, nc})
	}
}

// ---------- contracts at call sites ----------

func (e *Engine) callEnv(c *Contract, st *State, args []Val) *Env {
	env := &Env{e: e, st: st, old: st, vars: map[string]TV{}, c: c}
	for i, p := range c.Params {
		if i < len(args) {
			env.vars[p.Name] = TV{args[i], p.Type}
		}
	}
	return env
}

func (e *Engine) applyContract(fr *Frame, st *State, c *Contract, args []Val, sig *types.Signature, pos token.Pos, k func(*State, Val)) {
	u := e.u
	if c.Trusted {
		e.trusted["trusted contract: "+c.Name] = true
	} else {
		e.trusted["contract of "+c.Name+" (checked separately)"] = true
	}
	env := e.callEnv(c, st, args)
	for i, r := range c.Requires {
		e.oblige(st, e.evalBool(r.Expr, env), fmt.Sprintf("call:%s/requires:%s", c.Short(), r.label(i)), e.posStr(pos))
		if st.dead {
			return
		}
	}
	for name, cl := range e.unit.Before {
		if name != c.Base() && name != c.Short() && name != c.Name {
			continue
		}
		for i, r := range cl {
			be := e.entryEnv(st)
			for n, v := range env.vars {
				be.vars["call_"+n] = v
			}
			e.oblige(st, e.evalBool(r.Expr, be), fmt.Sprintf("before:%s/%s", name, r.label(i)), e.posStr(pos))
			if st.dead {
				return
			}
		}
	}
	if c.Panics != nil {
		p := e.evalBool(c.Panics, env)
		e.rtCheck(fr, st, u.Not(p), "panics@"+c.Short(), pos)
		if st.dead {
			return
		}
	}
	if e.unit.CountCalls[c.Base()] {
		h := e.heapGet(st, "G$calls$"+c.Base(), arr(SInt, SInt))
		e.heapSet(st, "G$calls$"+c.Base(), arr(SInt, SInt), u.I(0), u.AddI(u.Select(h, u.I(0)), 1))
	}
	if e.unit.LastCalls[c.Name] {
		for i, p := range c.Params {
			if i < len(args) {
				e.setLast(st, c, p.Name, args[i], p.Type)
			}
		}
	}
	old := st.clone()
	e.progress = nil
	e.havocModifies(st, c, env)
	progress := e.progress
	if !c.NoAlloc {
		nt := u.Fresh("top", SInt)
		e.assume(st, u.Le(st.top, nt))
		st.top = nt
	}
	var res []Val
	env2 := &Env{e: e, st: st, old: old, vars: map[string]TV{}, c: c}
	for n, v := range env.vars {
		env2.vars[n] = v
	}
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var v Val
		if c.PureFn {
			v = e.pureResult(c, st, args, i, t)
		} else {
			v = e.freshVal(st, t, "r$"+c.Base())
		}
		res = append(res, v)
		env2.bindResult(i, sig.Results().Len(), sig.Results().At(i).Name(), TV{v, t})
		if e.unit.LastCalls[c.Name] && i < len(c.ResNames) {
			e.setLast(st, c, c.ResNames[i], v, t)
		}
	}
	for _, en := range c.Ensures {
		if en.Local {
			continue
		}
		if en.Assumed {
			e.trusted["assumed of "+c.Name+": "+en.Src] = true
		}
		e.assume(st, e.evalBool(en.Expr, env2))
	}
	for _, f := range progress {
		n := sig.Results().Len()
		f(st, e.u.Eq(e.toComps(res[n-1], sig.Results().At(n-1).Type())[0], e.u.I(0)))
	}
	k(st, resultVal(res))
}

// setLast records what a call was given or answered, for last().
func (e *Engine) setLast(st *State, c *Contract, x string, v Val, t types.Type) {
	e.putGhost(st, "G$last$"+c.Name+"$"+x, v, t, e.u.True)
}

// putGhost keeps a value under a name, if cond holds; getGhost finds it again.
func (e *Engine) putGhost(st *State, name string, v Val, t types.Type, cond *Term) {
	u := e.u
	t = types.Unalias(t)
	if s, ok := t.Underlying().(*types.Struct); ok && isStruct(t) {
		for i := 0; i < s.NumFields(); i++ {
			e.putGhost(st, name+"."+s.Field(i).Name(), v.(*StructV).f[i], s.Field(i).Type(), cond)
		}
		return
	}
	ts := e.toComps(v, t)
	for i, cc := range comps(t) {
		n := name + cc.suffix
		h := e.heapGet(st, n, arr(SInt, cc.sort))
		e.heapSet(st, n, arr(SInt, cc.sort), u.I(0), u.Ite(cond, ts[i], u.Select(h, u.I(0))))
	}
}

func (e *Engine) getGhost(st *State, name string, t types.Type) Val {
	t = types.Unalias(t)
	if s, ok := t.Underlying().(*types.Struct); ok && isStruct(t) {
		sv := &StructV{t: s}
		for i := 0; i < s.NumFields(); i++ {
			sv.f = append(sv.f, e.getGhost(st, name+"."+s.Field(i).Name(), s.Field(i).Type()))
		}
		return sv
	}
	var ts []*Term
	for _, cc := range comps(t) {
		ts = append(ts, e.rangeTerm(cc, e.u.Select(e.heapGet(st, name+cc.suffix, arr(SInt, cc.sort)), e.u.I(0))))
	}
	return e.fromComps(st, t, ts)
}

func (e *Engine) pureResult(c *Contract, st *State, args []Val, i int, t types.Type) Val {
	var ts []*Term
	for j, a := range args {
		if tm, ok := a.(*Term); ok {
			ts = append(ts, tm)
			continue
		}
		ts = append(ts, e.toComps(a, c.Params[j].Type)...)
	}
	var rs []*Term
	for _, cc := range comps(t) {
		rs = append(rs, e.rangeTerm(cc, e.u.App(fmt.Sprintf("pure$%s$%d%s", c.Name, i, cc.suffix), cc.sort, ts...)))
	}
	return e.fromComps(st, t, rs)
}

func (e *Engine) havocModifies(st *State, c *Contract, env *Env) {
	for _, m := range c.Modifies {
		if m.Src == "*" {
			e.havocAll(st)
			return
		}
	}
	for _, m := range c.Modifies {
		if n, ok := m.Expr.(*ast.CallExpr); ok {
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "callback" {
				e.callback(st, c, e.eval(n.Args[0], env))
				continue
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "R" {
				// the reader moves forward within its content
				v := e.viewOf(st, e.eval(n.Args[0], env))
				d := e.u.typeRange(e.u.Fresh("rd", SInt), new(big.Int), maxLen)
				e.assume(st, e.u.Le(d, v.avail))
				v.advance(st, d)
				continue
			}
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "W" {
				e.havocWriter(st, e.eval(n.Args[0], env))
				continue
			}
		}
		for _, l := range e.modLocs(m, env) {
			e.havocLoc(st, l)
		}
	}
}

// callback: a callee calls the function it was given any number of times. What
// the function keeps steady holds before the first call and after the last.
func (e *Engine) callback(st *State, c *Contract, v TV) {
	f, ok := v.v.(FuncV)
	if !ok || f.fn == nil {
		panic(unsupported("call of " + c.Short() + " with an unknown function"))
	}
	ct := e.P.contractFor(f.fn)
	if ct == nil {
		panic(unsupported("function without contract handed to " + c.Short()))
	}
	e.trusted["contract of "+ct.Name+" (checked separately)"] = true
	if len(ct.Requires) > 0 {
		e.trusted[c.Name+" calls its function only with arguments satisfying the preconditions of "+ct.Name] = true
	}
	env := func(st, old *State) *Env {
		x := &Env{e: e, st: st, old: old, vars: map[string]TV{}, c: ct}
		for i, fv := range f.fn.FreeVars {
			x.vars[fv.Name()] = TV{f.bind[i], fv.Type()}
		}
		return x
	}
	for i, s := range append(append([]Clause{}, ct.Steady...), ct.Progress...) {
		e.oblige(st, e.evalBool(s.Expr, env(st, st)), fmt.Sprintf("call:%s/steady:%s", ct.Short(), s.label(i)), s.Src)
		if st.dead {
			return
		}
	}
	old := st.clone()
	e.havocModifies(st, ct, env(st, st))
	if !ct.NoAlloc {
		nt := e.u.Fresh("top", SInt)
		e.assume(st, e.u.Le(st.top, nt))
		st.top = nt
	}
	for _, s := range ct.Steady {
		e.assume(st, e.evalBool(s.Expr, env(st, old)))
	}
	if len(ct.Progress) > 0 {
		e.trusted[c.Name+" returns an error when its function did (contract of "+c.Name+")"] = true
		e.progress = append(e.progress, func(st *State, ok *Term) {
			for _, s := range ct.Progress {
				e.assume(st, e.u.Imp(ok, e.evalBool(s.Expr, env(st, old))))
			}
		})
	}
}

// havocWriter: a callee appended to the writer. Counting wrappers, which the
// callee can reach only through their Write method, count what was appended.
func (e *Engine) havocWriter(st *State, v TV) {
	w := e.writerTerm(st, v)
	before := e.wlen(st, w)
	type cnt struct {
		l modLoc
		v *Term
	}
	var cs []cnt
	for _, l := range e.writerLocs(st, v) {
		if strings.HasPrefix(l.heap, "W.") {
			e.havocLoc(st, l)
		} else {
			cs = append(cs, cnt{l, e.u.Select(e.heapGet(st, l.heap, l.sort), l.addr)})
		}
	}
	for _, c := range cs {
		e.trusted["a counting writer handed to a callee counts what reaches the wrapped writer (contract of CountingWriter.Write)"] = true
		e.heapSet(st, c.l.heap, c.l.sort, c.l.addr, e.u.wrap(e.u.Add(c.v, e.u.Sub(e.wlen(st, w), before)), types.Typ[types.Int64]))
	}
}

// modLoc: a set of heap locations.
type modLoc struct {
	heap string
	sort Sort
	addr *Term
	lo   *Term // row range (absolute), nil: whole
	hi   *Term
	any  bool // every address of this heap
}

func (e *Engine) havocLoc(st *State, l modLoc) {
	u := e.u
	h := e.heapGet(st, l.heap, l.sort)
	_, vs := l.sort.elem()
	if l.any {
		st.heap[l.heap] = u.Fresh("hv$"+l.heap, l.sort)
		for _, r := range e.recs {
			*r = append(*r, writeRec{l.heap, nil})
		}
		return
	}
	nv := u.Fresh("hv$"+l.heap, vs)
	if l.lo != nil {
		old := u.Select(h, l.addr)
		i := u.BVar("i", SInt)
		raw := u.Select(nv, i)
		e.assume(st, u.Forall([]*Term{i}, u.Or(u.And(u.Le(l.lo, i), u.Lt(i, l.hi)), u.Eq(raw, u.Select(old, i))), []*Term{raw}))
	}
	e.heapSet(st, l.heap, l.sort, l.addr, nv)
}

// structLocs lists all scalar locations of a struct object at address a.
func (e *Engine) structLocs(t types.Type, a *Term, out []modLoc) []modLoc {
	s := t.Underlying().(*types.Struct)
	k := structKeyOf(t)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		out = e.fieldLocs(t, k, f, a, out)
	}
	return out
}

func (e *Engine) fieldLocs(t types.Type, k string, f *types.Var, a *Term, out []modLoc) []modLoc {
	if isStruct(f.Type()) {
		return e.structLocs(f.Type(), e.fieldAddr(k, f.Name(), a), out)
	}
	if ar, ok := f.Type().Underlying().(*types.Array); ok {
		fa := e.fieldAddr(k, f.Name(), a)
		if isAgg(ar.Elem()) {
			panic(unsupported("modifies array of aggregates"))
		}
		for _, c := range comps(ar.Elem()) {
			out = append(out, modLoc{heap: "E$" + elemKey(ar.Elem()) + c.suffix, sort: arr(SInt, arr(SInt, c.sort)), addr: fa})
		}
		return out
	}
	for _, c := range comps(f.Type()) {
		out = append(out, modLoc{heap: k + "." + f.Name() + c.suffix, sort: arr(SInt, c.sort), addr: a})
	}
	return out
}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	if o := fn.Origin(); o != nil {
		s = o.String()
	}
	return strings.ReplaceAll(s, "github.com/NVIDIA/vdisc/pkg/", "")
}
