package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(e *Engine, fr *Frame, st *State, args []Val, pos token.Pos, k func(*State, Val))

// ---------- ghost writers ----------

var ghostMax = new(big.Int).Lsh(big.NewInt(1), 60)

// writerTerm finds the underlying writer an object forwards to.
func (e *Engine) writerTerm(st *State, v TV) *Term {
	if iv, ok := v.v.(IfaceV); ok {
		iv = e.knownIface(st, iv)
		if iv.dyn == nil {
			return iv.pay
		}
		v = TV{iv.val, iv.dyn}
	}
	if inner, ok := e.forwarded(st, v, "w"); ok {
		return e.writerTerm(st, inner)
	}
	return e.payTerm(v)
}

// forwarded: counting wrappers forward to the field named f.
func (e *Engine) forwarded(st *State, v TV, f string) (TV, bool) {
	p, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		return TV{}, false
	}
	switch typeKey(p.Elem()) {
	case "iso9660.CountingWriter", "iso9660.CountingReader":
		s := p.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				fp := e.fieldPtr(v.v.(Ptr), p.Elem(), i)
				return TV{e.load(st, fp, s.Field(i).Type()), s.Field(i).Type()}, true
			}
		}
	}
	return TV{}, false
}

func (e *Engine) wlen(st *State, w *Term) *Term {
	return e.u.typeRange(e.u.Select(e.heapGet(st, "W.len", arr(SInt, SInt)), w), new(big.Int), ghostMax)
}

func (e *Engine) wbyte(st *State, w, i *Term) *Term {
	return e.u.typeRange(e.u.Select(e.u.Select(e.heapGet(st, "W.buf", arr(SInt, sArrII)), w), i), new(big.Int), byteMax)
}

func (e *Engine) wappend(st *State, w, row, off, n *Term) {
	u := e.u
	l := e.wlen(st, w)
	old := u.Select(e.heapGet(st, "W.buf", arr(SInt, sArrII)), w)
	e.heapSet(st, "W.buf", arr(SInt, sArrII), w, e.acopy(old, l, row, off, n))
	nl := u.Add(l, n)
	e.assume(st, u.Le(nl, u.Big(ghostMax)))
	e.heapSet(st, "W.len", arr(SInt, SInt), w, nl)
}

func (e *Engine) writerLocs(st *State, v TV) []modLoc {
	var out []modLoc
	for {
		if iv, ok := v.v.(IfaceV); ok {
			iv = e.knownIface(st, iv)
			if iv.dyn == nil {
				e.notCounting(st, iv)
				break
			}
			v = TV{iv.val, iv.dyn}
		}
		inner, ok := e.forwarded(st, v, "w")
		if !ok {
			break
		}
		// the counter of the wrapper changes too
		p := v.t.Underlying().(*types.Pointer)
		out = append(out, modLoc{heap: structKeyOf(p.Elem()) + ".n", sort: arr(SInt, SInt), addr: v.v.(Ptr).addr})
		v = inner
	}
	w := e.payTerm(v)
	return append(out, modLoc{heap: "W.buf", sort: arr(SInt, sArrII), addr: w}, modLoc{heap: "W.len", sort: arr(SInt, SInt), addr: w})
}

// ioErr makes an arbitrary error result.
func (e *Engine) freshErr(st *State) IfaceV {
	t := types.Universe.Lookup("error").Type()
	return e.freshVal(st, t, "err").(IfaceV)
}

func isNil(u *U, v IfaceV) *Term { return u.Eq(v.tag, u.I(0)) }

func (e *Engine) writeTo(fr *Frame, st *State, wv TV, row, off, n *Term, pos token.Pos, k func(*State, *Term, IfaceV)) {
	u := e.u
	iv, ok := wv.v.(IfaceV)
	if ok {
		iv = e.knownIface(st, iv)
	}
	if ok && iv.dyn != nil {
		wv = TV{iv.val, iv.dyn}
		ok = false
	}
	if !ok {
		key := typeKey(wv.t)
		if key != "*bytes.Buffer" && key != "*strings.Builder" {
			// a concrete writer: run its real Write on a temporary buffer
			ref := e.alloc(st, "arr$uint8")
			e.heapSet(st, "E$uint8", arr(SInt, sArrII), ref, e.acopy(u.ConstArr(sArrII, u.I(0)), u.I(0), row, off, n))
			fn := e.P.methodByName(wv.t, "Write")
			if fn == nil {
				panic(unsupported("no Write method on " + key))
			}
			e.callFn(fr, st, fn, []Val{wv.v, SliceV{ref, u.I(0), n, n}}, nil, pos, func(st2 *State, v Val) {
				tv := v.(TupleV)
				k(st2, tv[0].(*Term), tv[1].(IfaceV))
			})
			return
		}
		w := e.payTerm(wv)
		e.wappend(st, w, row, off, n)
		k(st, n, e.zeroVal(types.Universe.Lookup("error").Type()).(IfaceV))
		return
	}
	e.rtCheck(fr, st, u.Not(u.Eq(iv.tag, u.I(0))), "nil", pos)
	e.trusted["io.Writer: Write appends the n bytes it reports; n < len(p) only with an error"] = true
	m := u.typeRange(u.Fresh("nw", SInt), new(big.Int), maxLen)
	err := e.freshErr(st)
	e.assume(st, u.And(u.Le(m, n), u.Imp(isNil(u, err), u.Eq(m, n))))
	// split on success so that successful paths have concrete lengths
	okc := isNil(u, err)
	s2 := st.clone()
	e.assume(s2, okc)
	e.wappend(s2, iv.pay, row, off, n)
	k(s2, n, e.zeroVal(types.Universe.Lookup("error").Type()).(IfaceV))
	e.assume(st, u.Not(okc))
	if n.isInt() && n.num.Cmp(big.NewInt(1)) == 0 {
		// a failing one byte write transfers zero or one byte
	}
	e.wappendPartial(st, iv.pay, row, off, m)
	k(st, m, err)
}

// wappendPartial appends an unknown-length prefix (failure path).
func (e *Engine) wappendPartial(st *State, w, row, off, n *Term) {
	u := e.u
	l := e.wlen(st, w)
	old := u.Select(e.heapGet(st, "W.buf", arr(SInt, sArrII)), w)
	t := u.App("acopy$"+string(sArrII), sArrII, old, l, row, off, n)
	if len(t.facts) == 0 {
		i := u.BVar("i", SInt)
		raw := u.mk(&Term{op: "select", args: []*Term{t, i}, sort: SInt})
		in := u.And(u.Le(l, i), u.Lt(i, u.Add(l, n)))
		u.addFact(t, u.Forall([]*Term{i}, u.Eq(raw, u.Ite(in, u.Select(row, u.Add(off, u.Sub(i, l))), u.Select(old, i))), []*Term{raw}))
	}
	e.heapSet(st, "W.buf", arr(SInt, sArrII), w, t)
	e.assume(st, u.Le(u.Add(l, n), u.Big(ghostMax)))
	e.heapSet(st, "W.len", arr(SInt, SInt), w, u.Add(l, n))
}

// ---------- ghost readers ----------

func (e *Engine) readerTerm(st *State, v TV) *Term {
	if iv, ok := v.v.(IfaceV); ok {
		if iv.dyn == nil {
			return iv.pay
		}
		v = TV{iv.val, iv.dyn}
	}
	if inner, ok := e.forwarded(st, v, "r"); ok {
		return e.readerTerm(st, inner)
	}
	return e.payTerm(v)
}

func (e *Engine) rpos(st *State, r *Term) *Term {
	return e.u.typeRange(e.u.Select(e.heapGet(st, "R.pos", arr(SInt, SInt)), r), new(big.Int), ghostMax)
}
func (e *Engine) rlen(r *Term) *Term {
	return e.u.typeRange(e.u.App("rlen", SInt, r), new(big.Int), ghostMax)
}
func (e *Engine) rbyte(r, i *Term) *Term {
	return e.u.typeRange(e.u.Select(e.u.App("rcont", sArrII, r), i), new(big.Int), byteMax)
}
func (e *Engine) asize(r *Term) *Term {
	return e.u.typeRange(e.u.App("asize", SInt, r), new(big.Int), ghostMax)
}
func (e *Engine) abyte(r, i *Term) *Term {
	return e.u.typeRange(e.u.Select(e.u.App("acont", sArrII, r), i), new(big.Int), byteMax)
}

// readerView is viewOf for specifications: wrappers are seen in the
// coordinates of the stream they wrap.
func (e *Engine) readerView(st *State, v TV) rview {
	return e.viewOf(st.clone(), v)
}

func (e *Engine) readerLocs(st *State, v TV) []modLoc {
	return []modLoc{{heap: "R.pos", sort: arr(SInt, SInt), addr: e.readerTerm(st, v)}}
}

type rview struct {
	row, at, avail *Term
	advance        func(st *State, n *Term)
}

func structField(t types.Type, name string) (int, types.Type) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	panic(unsupported("field " + name + " of " + t.String()))
}

func (e *Engine) getF(st *State, p Ptr, t types.Type, name string) Val {
	i, ft := structField(t, name)
	return e.load(st, e.fieldPtr(p, t, i), ft)
}
func (e *Engine) setF(st *State, p Ptr, t types.Type, name string, v Val) {
	i, ft := structField(t, name)
	e.store(st, e.fieldPtr(p, t, i), ft, v)
}

func (e *Engine) viewOf(st *State, v TV) rview {
	u := e.u
	if iv, ok := v.v.(IfaceV); ok {
		iv = e.knownIface(st, iv)
		if iv.dyn == nil {
			r := iv.pay
			pos := e.rpos(st, r)
			e.assume(st, u.Le(pos, e.rlen(r)))
			return rview{u.App("rcont", sArrII, r), pos, u.Sub(e.rlen(r), pos), func(s *State, n *Term) {
				e.heapSet(s, "R.pos", arr(SInt, SInt), r, u.Add(pos, n))
			}}
		}
		v = TV{iv.val, iv.dyn}
	}
	pt, ok := v.t.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("reader " + typeKey(v.t)))
	}
	p := v.v.(Ptr)
	t := pt.Elem()
	switch typeKey(t) {
	case "io.LimitedReader":
		_, rt := structField(t, "R")
		in := e.viewOf(st, TV{e.getF(st, p, t, "R"), rt})
		N := e.getF(st, p, t, "N").(*Term)
		n0 := u.Ite(u.Le(N, u.I(0)), u.I(0), N)
		return rview{in.row, in.at, u.Ite(u.Le(in.avail, n0), in.avail, n0), func(s *State, n *Term) {
			in.advance(s, n)
			e.setF(s, p, t, "N", u.Sub(N, n))
		}}
	case "io.SectionReader":
		r := e.getF(st, p, t, "r").(IfaceV)
		off := e.getF(st, p, t, "off").(*Term)
		lim := e.getF(st, p, t, "limit").(*Term)
		if r.dyn != nil {
			panic(unsupported("section of concrete reader"))
		}
		sz := e.asize(r.pay)
		end := u.Ite(u.Le(lim, sz), lim, sz)
		return rview{u.App("acont", sArrII, r.pay), off, u.Ite(u.Le(off, end), u.Sub(end, off), u.I(0)), func(s *State, n *Term) {
			e.setF(s, p, t, "off", u.Add(off, n))
		}}
	case "bytes.Reader":
		s := e.getF(st, p, t, "s").(SliceV)
		i := e.getF(st, p, t, "i").(*Term)
		return rview{e.byteRow(st, s.ref), u.Add(s.off, i), u.Ite(u.Le(i, s.len), u.Sub(s.len, i), u.I(0)), func(st2 *State, n *Term) {
			e.setF(st2, p, t, "i", u.Add(i, n))
		}}
	case "iso9660.CountingReader":
		_, rt := structField(t, "r")
		in := e.viewOf(st, TV{e.getF(st, p, t, "r"), rt})
		cnt := e.getF(st, p, t, "n").(*Term)
		return rview{in.row, in.at, in.avail, func(s *State, n *Term) {
			in.advance(s, n)
			e.setF(s, p, t, "n", u.wrap(u.Add(cnt, n), types.Typ[types.Uint64]))
		}}
	}
	panic(unsupported("reader " + typeKey(v.t)))
}

func (e *Engine) errGlobal(st *State, pkg, name string) IfaceV {
	return e.sentinel(pkg, name)
}

// sentinel error values: distinct, non-nil, never reassigned.
func (e *Engine) sentinel(pkg, name string) IfaceV {
	a := e.u.Const("glob$errval$"+pkg+"."+name, SInt)
	if len(a.facts) == 0 {
		e.u.addFact(a, e.u.Lt(e.u.I(0), a))
		e.u.addFact(a, e.u.Eq(e.birth(a), e.u.I(-1)))
		e.u.addFact(a, e.u.Eq(e.u.App("globid", SInt, a), e.u.I(e.P.akind("errval$"+pkg+"."+name))))
	}
	tag := e.u.I(e.P.tagByName("*errors.errorString(sentinel)"))
	return IfaceV{tag: tag, pay: a}
}

func (e *Engine) globalVal(st *State, g *ssa.Global) (Val, bool) {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if types.Identical(t, types.Universe.Lookup("error").Type()) && e.P.neverAssigned(g) {
		return e.sentinel(g.Pkg.Pkg.Path(), g.Name()), true
	}
	return nil, false
}

// readFull models io.ReadFull for any modelled reader.
func (e *Engine) readFull(st *State, rv TV, dst func(st *State, row, off, n *Term), want *Term, k func(*State, *Term, IfaceV)) {
	u := e.u
	if want.isInt() && want.num.Sign() == 0 {
		k(st, want, e.nilErr())
		return
	}
	v := e.viewOf(st, rv)
	e.trusted["io.Reader: delivers its content in order; may fail with an error at any point"] = true
	n := u.typeRange(u.Fresh("nr", SInt), new(big.Int), maxLen)
	err := e.freshErr(st)
	eof := e.sentinel("io", "EOF")
	ueof := e.sentinel("io", "ErrUnexpectedEOF")
	nilc := isNil(u, err)
	e.assume(st, u.And(u.Le(n, want), u.Le(n, v.avail)))
	e.assume(st, u.Imp(u.Eq(want, u.I(0)), nilc))
	okc := u.And(nilc, u.Eq(n, want))
	if e.feasible(st, okc) {
		s2 := st.clone()
		e.assume(s2, okc)
		dst(s2, v.row, v.at, want)
		v.advance(s2, want)
		k(s2, want, e.nilErr())
	}
	e.assume(st, u.And(u.Not(nilc), u.Lt(n, want)))
	e.assume(st, u.Imp(e.ifaceEq(st, err, eof), u.And(u.Eq(n, u.I(0)), u.Eq(v.avail, u.I(0)))))
	e.assume(st, u.Imp(e.ifaceEq(st, err, ueof), u.And(u.Lt(u.I(0), n), u.Eq(v.avail, n))))
	if st.dead {
		return
	}
	dst(st, v.row, v.at, n)
	v.advance(st, n)
	k(st, n, err)
}

func (e *Engine) nilErr() IfaceV {
	return IfaceV{tag: e.u.I(0), pay: e.u.I(0)}
}

// readOnce models Read on an unknown reader.
func (e *Engine) readOnce(st *State, rv TV, dst SliceV, k func(*State, *Term, IfaceV)) {
	u := e.u
	v := e.viewOf(st, rv)
	e.trusted["io.Reader: delivers its content in order; may fail with an error at any point"] = true
	n := u.typeRange(u.Fresh("nr", SInt), new(big.Int), maxLen)
	err := e.freshErr(st)
	eof := e.sentinel("io", "EOF")
	e.assume(st, u.And(u.Le(n, dst.len), u.Le(n, v.avail)))
	e.assume(st, u.Imp(e.ifaceEq(st, err, eof), u.Eq(n, v.avail)))
	h := e.heapGet(st, "E$uint8", arr(SInt, sArrII))
	e.heapSet(st, "E$uint8", arr(SInt, sArrII), dst.ref, e.acopy(u.Select(h, dst.ref), dst.off, v.row, v.at, n))
	v.advance(st, n)
	k(st, n, err)
}

// readAt models ReaderAt.ReadAt on an unknown reader.
func (e *Engine) readAt(st *State, r *Term, dst SliceV, off *Term, k func(*State, *Term, IfaceV)) {
	u := e.u
	e.trusted["io.ReaderAt: n < len(p) only with an error; returns the content at the offset; may fail at any point"] = true
	n := u.typeRange(u.Fresh("nr", SInt), new(big.Int), maxLen)
	err := e.freshErr(st)
	eof := e.sentinel("io", "EOF")
	sz := e.asize(r)
	e.assume(st, u.And(u.Le(n, dst.len), u.Imp(isNil(u, err), u.And(u.Eq(n, dst.len), u.Le(u.I(0), off)))))
	e.assume(st, u.Imp(u.Lt(u.I(0), n), u.And(u.Le(u.I(0), off), u.Le(u.Add(off, n), sz))))
	e.assume(st, u.Imp(e.ifaceEq(st, err, eof), u.Le(sz, u.Add(off, n))))
	e.assume(st, u.Imp(u.Lt(off, u.I(0)), u.Not(isNil(u, err))))
	h := e.heapGet(st, "E$uint8", arr(SInt, sArrII))
	e.heapSet(st, "E$uint8", arr(SInt, sArrII), dst.ref, e.acopy(u.Select(h, dst.ref), dst.off, u.App("acont", sArrII, r), off, n))
	k(st, n, err)
}

func toSlice(e *Engine, dst SliceV) func(st *State, row, off, n *Term) {
	return func(st *State, row, off, n *Term) {
		h := e.heapGet(st, "E$uint8", arr(SInt, sArrII))
		e.heapSet(st, "E$uint8", arr(SInt, sArrII), dst.ref, e.acopy(e.u.Select(h, dst.ref), dst.off, row, off, n))
	}
}

// ---------- tables ----------

var tErr = types.Universe.Lookup("error").Type()

var ifaceIntrinsics map[string]intrinsic
var intrinsics map[string]intrinsic

func init() {
	ifaceIntrinsics = map[string]intrinsic{}
	wr := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		p := a[1].(SliceV)
		e.writeTo(fr, st, TV{a[0], nil}, e.byteRow(st, p.ref), p.off, p.len, pos, func(s *State, n *Term, err IfaceV) { k(s, TupleV{n, err}) })
	}
	rd := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		e.readOnce(st, TV{a[0], nil}, a[1].(SliceV), func(s *State, n *Term, err IfaceV) { k(s, TupleV{n, err}) })
	}
	rat := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		e.readAt(st, a[0].(IfaceV).pay, a[1].(SliceV), a[2].(*Term), func(s *State, n *Term, err IfaceV) { k(s, TupleV{n, err}) })
	}
	ifaceIntrinsics["io.Writer.Write"] = wr
	ifaceIntrinsics["io.Reader.Read"] = rd
	ifaceIntrinsics["io.ReaderAt.ReadAt"] = rat
	ifaceIntrinsics["error.Error"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		v := a[0].(IfaceV)
		k(st, e.strSym(e.u.App("errtext", SStr, v.tag, v.pay)))
	}
	intrinsics = map[string]intrinsic{}
	nonNilErr := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		// a new error value, distinct from every existing one
		o := e.alloc(st, "error")
		k(st, IfaceV{tag: e.u.I(e.P.tagByName("*errors.new")), pay: o})
	}
	intrinsics["errors.New"] = nonNilErr
	intrinsics["fmt.Errorf"] = nonNilErr
	for _, n := range []string{"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage"} {
		intrinsics[n] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
			in := a[0].(IfaceV)
			o := e.alloc(st, "error")
			c := isNil(e.u, in)
			k(st, IfaceV{tag: e.u.Ite(c, e.u.I(0), e.u.I(e.P.tagByName("*errors.wrapped"))), pay: e.u.Ite(c, e.u.I(0), o)})
		}
	}
	intrinsics["io.ReadFull"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		d := a[1].(SliceV)
		e.readFull(st, TV{a[0], nil}, toSlice(e, d), d.len, func(s *State, n *Term, err IfaceV) { k(s, TupleV{n, err}) })
	}
	intrinsics["io.WriteString"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		s := a[1].(*Term)
		e.writeTo(fr, st, TV{a[0], nil}, e.sarr(s), e.u.I(0), e.slen(s), pos, func(s *State, n *Term, err IfaceV) { k(s, TupleV{n, err}) })
	}
	intrinsics["(*bytes.Buffer).Write"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		p := a[1].(SliceV)
		e.wappend(st, e.T(a[0]), e.byteRow(st, p.ref), p.off, p.len)
		k(st, TupleV{p.len, e.nilErr()})
	}
	intrinsics["(*bytes.Buffer).WriteByte"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		e.wappend(st, e.T(a[0]), e.u.ConstArr(sArrII, a[1].(*Term)), e.u.I(0), e.u.I(1))
		k(st, e.nilErr())
	}
	intrinsics["(*bytes.Buffer).WriteString"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		s := a[1].(*Term)
		e.wappend(st, e.T(a[0]), e.sarr(s), e.u.I(0), e.slen(s))
		k(st, TupleV{e.slen(s), e.nilErr()})
	}
	intrinsics["(*bytes.Buffer).Len"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		e.trusted["bytes.Buffer is only written to, never read, in verified code"] = true
		k(st, e.wlen(st, e.T(a[0])))
	}
	bufStr := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		w := e.T(a[0])
		row := e.u.Select(e.heapGet(st, "W.buf", arr(SInt, sArrII)), w)
		k(st, e.sofb(row, e.u.I(0), e.wlen(st, w)))
	}
	intrinsics["(*bytes.Buffer).String"] = bufStr
	intrinsics["(*strings.Builder).String"] = bufStr
	intrinsics["(*strings.Builder).WriteByte"] = intrinsics["(*bytes.Buffer).WriteByte"]
	intrinsics["(*strings.Builder).WriteString"] = intrinsics["(*bytes.Buffer).WriteString"]
	intrinsics["(*bytes.Buffer).Bytes"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		w := e.T(a[0])
		row := e.u.Select(e.heapGet(st, "W.buf", arr(SInt, sArrII)), w)
		n := e.wlen(st, w)
		ref := e.alloc(st, "arr$uint8")
		e.heapSet(st, "E$uint8", arr(SInt, sArrII), ref, row)
		c := e.u.typeRange(e.u.Fresh("cap", SInt), new(big.Int), maxLen)
		e.assume(st, e.u.Le(n, c))
		k(st, SliceV{ref, e.u.I(0), n, c})
	}
	intrinsics["encoding/binary.Write"] = binWrite
	intrinsics["encoding/binary.Read"] = binRead
	intrinsics["io.CopyN"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		// CopyN(dst, src, n): modelled for a discarding destination
		d := a[0].(IfaceV)
		if d.dyn == nil || !strings.Contains(typeKey(d.dyn), "discard") {
			if !e.isDiscard(d) {
				panic(unsupported("io.CopyN to a real writer"))
			}
		}
		n := a[2].(*Term)
		u := e.u
		want := u.Ite(u.Le(n, u.I(0)), u.I(0), n)
		e.readFull(st, TV{a[1], nil}, func(*State, *Term, *Term, *Term) {}, want, func(s *State, m *Term, err IfaceV) {
			// CopyN reports io.EOF for any early end
			ue := e.ifaceEq(s, err, e.sentinel("io", "ErrUnexpectedEOF"))
			eof := e.sentinel("io", "EOF")
			r := IfaceV{tag: u.Ite(ue, eof.tag, err.tag), pay: u.Ite(ue, eof.pay, err.pay)}
			k(s, TupleV{m, r})
		})
	}
	noop := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		if len(e.unit.Shared) == 0 {
			e.trusted["locks: every call is verified as if run alone (no interference)"] = true
		}
		k(st, nil)
	}
	acquire := func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		e.interfere(st)
		noop(e, fr, st, a, pos, k)
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		intrinsics[n] = noop
		if strings.HasSuffix(n, "Lock") && !strings.HasSuffix(n, "Unlock") {
			intrinsics[n] = acquire
		}
	}
	for _, n := range []string{"Add", "Done", "Wait"} {
		n := n
		intrinsics["(*sync.WaitGroup)."+n] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
			u := e.u
			wg := e.payTerm(TV{a[0], nil})
			for i, r := range e.unit.Before["WaitGroup."+n] {
				env := e.entryEnv(st)
				env.vars["call_wg"] = TV{a[0], types.NewPointer(types.Typ[types.Int])}
				e.oblige(st, e.evalBool(r.Expr, env), fmt.Sprintf("before:%s/%s", n, r.label(i)), e.posStr(pos))
				if st.dead {
					return
				}
			}
			settled := arr(SInt, SBool)
			switch n {
			case "Add":
				e.count(st, "G$adds", wg, u.True)
				e.heapSet(st, "G$lastadded", arr(SInt, SInt), u.I(0), wg)
				e.heapSet(st, "G$settled", settled, wg, u.False)
			case "Done":
				e.count(st, "G$dones", wg, u.True)
			case "Wait":
				e.count(st, "G$waits", wg, u.True)
				e.heapSet(st, "G$settled", settled, wg, u.True)
				e.interfere(st)
			}
			noop(e, fr, st, a, pos, k)
		}
	}
	intrinsics["(*sync.Once).Do"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		f, ok := a[1].(FuncV)
		if !ok {
			panic(unsupported("Once.Do of a non-function"))
		}
		h := arr(SInt, SInt)
		o := e.payTerm(TV{a[0], nil}) // gvar(once, o): 1 after the first Do
		d := e.u.Eq(e.u.Select(e.heapGet(st, "G$v$once", h), o), e.u.I(1))
		if e.feasible(st, d) {
			s2 := st.clone()
			e.assume(s2, d)
			k(s2, nil)
		}
		if e.feasible(st, e.u.Not(d)) {
			e.assume(st, e.u.Not(d))
			e.heapSet(st, "G$v$once", h, o, e.u.I(1))
			e.callFuncV(fr, st, f, types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, pos, func(s *State, _ Val) { k(s, nil) })
		}
	}
	intrinsics["fmt.Sprintf"] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
		e.trusted["no side effects on verified state: fmt.Sprintf"] = true
		sl := a[1].(SliceV)
		if !sl.len.isInt() {
			r := e.u.Fresh("sprintf", SStr)
			e.strFacts(r)
			k(st, r)
			return
		}
		ts := []*Term{e.T(a[0])}
		anyT := types.NewInterfaceType(nil, nil)
		n := sl.len.num.Int64()
		for i := int64(0); i < n; i++ {
			v := e.load(st, e.elemPtr(anyT, sl.ref, e.u.AddI(sl.off, i)), anyT).(IfaceV)
			ts = append(ts, v.tag, v.pay)
		}
		r := e.sprintfTerm(ts)
		if c := e.P.byName["fmt.Sprintf"]; c != nil {
			e.trusted["trusted contract: fmt.Sprintf"] = true
			env := e.callEnv(c, st, a)
			env.bindResult(0, 1, "r", TV{r, types.Typ[types.String]})
			for _, en := range c.Ensures {
				e.assume(st, e.evalBool(en.Expr, env))
			}
		}
		k(st, r)
	}
	at := func(name string, t types.Type, f func(e *Engine, st *State, p Ptr, old *Term, a []Val) (nv *Term, ret Val)) {
		intrinsics["sync/atomic."+name] = func(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
			p := a[0].(Ptr)
			old := e.load(st, p, t).(*Term)
			nv, ret := f(e, st, p, old, a)
			if nv != nil {
				e.store(st, p, t, nv)
			}
			e.trusted["atomics: sequentially consistent single cell operations"] = true
			k(st, ret)
		}
	}
	for _, tn := range []struct {
		n string
		t types.BasicKind
	}{{"Uint64", types.Uint64}, {"Uint32", types.Uint32}, {"Int64", types.Int64}, {"Int32", types.Int32}} {
		t := types.Typ[tn.t]
		at("Add"+tn.n, t, func(e *Engine, st *State, p Ptr, old *Term, a []Val) (*Term, Val) {
			nv := e.u.wrap(e.u.Add(old, a[1].(*Term)), t)
			return nv, nv
		})
		at("CompareAndSwap"+tn.n, t, func(e *Engine, st *State, p Ptr, old *Term, a []Val) (*Term, Val) {
			c := e.u.Eq(old, a[1].(*Term))
			return e.u.Ite(c, a[2].(*Term), old), c
		})
		at("Load"+tn.n, t, func(e *Engine, st *State, p Ptr, old *Term, a []Val) (*Term, Val) { return nil, old })
		at("Store"+tn.n, t, func(e *Engine, st *State, p Ptr, old *Term, a []Val) (*Term, Val) { return a[1].(*Term), nil })
	}
}

func (e *Engine) isDiscard(d IfaceV) bool {
	g := e.u.Const("glob$io.Discard", SInt)
	_ = g
	return strings.Contains(e.u.str(d.pay), "Discard") || strings.Contains(e.u.str(d.tag), "Discard")
}

func byteOrder(v Val) (little bool, ok bool) {
	iv, isI := v.(IfaceV)
	if !isI || iv.dyn == nil {
		return false, false
	}
	switch typeKey(iv.dyn) {
	case "encoding/binary.littleEndian":
		return true, true
	case "encoding/binary.bigEndian":
		return false, true
	}
	return false, false
}

// orderTags: the type tags of binary.LittleEndian and binary.BigEndian.
func (e *Engine) orderTags() (little, big *Term) {
	pk := e.P.allPkgs["encoding/binary"]
	if pk == nil {
		panic(unsupported("binary.Write with unknown order"))
	}
	tag := func(n string) *Term { return e.u.I(e.P.tagOf(pk.Scope().Lookup(n).Type())) }
	return tag("LittleEndian"), tag("BigEndian")
}

func binWrite(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
	u := e.u
	le, ok := byteOrder(a[1])
	d := a[2].(IfaceV)
	iv, isI := a[1].(IfaceV)
	if !ok && !isI || d.dyn == nil {
		panic(unsupported("binary.Write with unknown order or data"))
	}
	b := basicInt(d.dyn)
	if b == nil {
		panic(unsupported("binary.Write of " + d.dyn.String()))
	}
	bits, _ := bitsOf(b)
	n := int64(bits / 8)
	x := d.val.(*Term)
	x = u.wrap(x, types.Typ[map[int64]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[n]])
	row := u.ConstArr(sArrII, u.I(0))
	for i := int64(0); i < n; i++ {
		sh := i
		if !le {
			sh = n - 1 - i
		}
		at := func(sh int64) *Term { return u.Mod(u.Div(x, u.Big(pow2(uint(8*sh)))), u.I(256)) }
		v := at(sh)
		if !ok { // the order is known only by its type
			lt, bt := e.orderTags()
			v = u.Ite(u.Eq(iv.tag, lt), at(i), u.Ite(u.Eq(iv.tag, bt), at(n-1-i), u.typeRange(u.Fresh("orderbyte", SInt), new(big.Int), byteMax)))
		}
		row = u.Store(row, u.I(i), v)
	}
	e.trusted["encoding/binary: fixed-size integers in the stated byte order"] = true
	e.writeTo(fr, st, TV{a[0], nil}, row, u.I(0), u.I(n), pos, func(s *State, n *Term, err IfaceV) { k(s, err) })
}

func binRead(e *Engine, fr *Frame, st *State, a []Val, pos token.Pos, k func(*State, Val)) {
	u := e.u
	le, ok := byteOrder(a[1])
	d := a[2].(IfaceV)
	if !ok || d.dyn == nil {
		panic(unsupported("binary.Read with unknown order or data"))
	}
	pt, isP := d.dyn.Underlying().(*types.Pointer)
	if !isP || basicInt(pt.Elem()) == nil {
		panic(unsupported("binary.Read of " + d.dyn.String()))
	}
	b := basicInt(pt.Elem())
	bits, signed := bitsOf(b)
	n := int64(bits / 8)
	p := d.val.(Ptr)
	e.trusted["encoding/binary: fixed-size integers in the stated byte order"] = true
	var got *Term
	e.readFull(st, TV{a[0], nil}, func(s *State, row, off, m *Term) {
		got = nil
		if !m.isInt() {
			return // failed read: destination untouched
		}
		x := u.I(0)
		for i := int64(0); i < n; i++ {
			sh := i
			if !le {
				sh = n - 1 - i
			}
			v := u.typeRange(u.Select(row, u.AddI(off, i)), new(big.Int), byteMax)
			x = u.Add(x, u.Mul(u.Big(pow2(uint(8*sh))), v))
		}
		if signed {
			x = u.wrap(x, b)
		}
		got = x
		e.store(s, p, pt.Elem(), x)
	}, u.I(n), func(s *State, m *Term, err IfaceV) { k(s, err) })
	_ = got
}

// sprintfTerm: formatting is a function of the format and the arguments.
func (e *Engine) sprintfTerm(ts []*Term) *Term {
	t := e.u.App(fmt.Sprintf("sprintf$%d", (len(ts)-1)/2), SStr, ts...)
	e.strFacts(t)
	return t
}

// pureExternal classifies standard library functions without effects on
// verified state: "fn" deterministic, "any" arbitrary result.
func pureExternal(name string) string {
	switch name {
	case "strings.ToUpper", "strings.ToLower", "strings.TrimRight", "strings.TrimLeft", "strings.TrimPrefix", "strings.TrimSuffix", "strings.HasPrefix", "strings.HasSuffix",
		"strings.Contains", "strings.Index", "strings.LastIndex", "strings.Repeat", "strings.Join", "path.Join", "path.Clean", "path.Base", "path.Dir", "path/filepath.Clean", "path/filepath.Dir", "path/filepath.Base",
		"strconv.Itoa", "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi", "strconv.FormatInt", "strconv.FormatUint",
		"(time.Time).Unix", "(time.Time).UTC", "(time.Time).Zone", "(time.Time).Second", "(time.Time).Minute", "(time.Time).Hour", "(time.Time).Day", "(time.Time).Month", "(time.Time).Year",
		"(time.Time).Nanosecond", "(time.Time).Add", "(time.Time).Sub", "(time.Time).Equal", "(time.Time).IsZero", "time.Unix", "unicode/utf8.RuneLen", "unicode.IsPrint", "bytes.Equal",
		"fmt.Sprint", "path.IsAbs":
		return "fn"
	case "time.Now", "time.Date", "time.FixedZone", "time.Since", "strings.Split", "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "time.Sleep",
		"path/filepath.Join", "net/url.Parse", "(*net/url.URL).String":
		return "any"
	}
	if strings.HasPrefix(name, "go.uber.org/zap.") || strings.HasPrefix(name, "(*go.uber.org/zap.") {
		return "any"
	}
	if strings.HasPrefix(name, "(*github.com/prometheus/") || strings.HasPrefix(name, "github.com/prometheus/") {
		return "any"
	}
	return ""
}

var _ = fmt.Sprint

// knownIface: an interface value read back from memory may be known, from an
// equality on the path, to hold a pointer of a particular type. A stream must
// then be followed through it like through the pointer itself.
func (e *Engine) knownIface(st *State, iv IfaceV) IfaceV {
	if iv.dyn != nil || iv.tag.isInt() || st == nil {
		return iv
	}
	other := func(t *Term, want func(*Term) bool) (r *Term) {
		var scan func(x *Term)
		scan = func(x *Term) {
			switch {
			case x.op == "and":
				for _, a := range x.args {
					scan(a)
				}
			case x.op == "=" && x.args[0] == t && want(x.args[1]):
				r = x.args[1]
			case x.op == "=" && x.args[1] == t && want(x.args[0]):
				r = x.args[0]
			}
		}
		for p := st.pc; p != nil && r == nil; p = p.prev {
			scan(p.t)
		}
		return
	}
	tag := other(iv.tag, (*Term).isInt)
	if tag == nil {
		return iv
	}
	dt := e.P.tagType(tag.num.Int64())
	if dt == nil {
		return iv
	}
	if _, ok := dt.Underlying().(*types.Pointer); !ok {
		return iv
	}
	pay := iv.pay
	if x := other(pay, func(x *Term) bool { return true }); x != nil {
		pay = x
	}
	return IfaceV{tag: tag, pay: pay, dyn: dt, val: e.unbox(st, dt, pay)}
}

// notCounting: a writer of unknown type must not be one of the counting
// wrappers made here, whose stream is that of the wrapped writer.
func (e *Engine) notCounting(st *State, iv IfaceV) {
	if len(e.counting) == 0 || e.entry != nil && e.inPC(st, e.u.Lt(e.birth(iv.pay), e.entry.top)) {
		return // it existed before
	}
	for _, a := range e.counting {
		if e.feasible(st, e.u.And(e.u.Eq(iv.pay, a.addr), e.u.Eq(iv.tag, a.tag))) {
			panic(unsupported("a writer of unknown type may be a counting writer made by this function"))
		}
	}
}
