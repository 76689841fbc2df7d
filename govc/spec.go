package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var records = []string{"calls", "last", "sends", "closes", "adds", "dones", "waits", "settled", "lastadded", "recvs", "received"}

type Clause struct {
	Label   string
	Src     string
	Expr    ast.Expr
	Local   bool // proved here, not exported to callers
	Assumed bool // given to callers, not proved
	Vars    []tmplVar
	Chan    string   // onsend, onrecv: the channel meant (default: every channel); spawn: the function
	Props   []string // properties the clause belongs to (default: the contract's)
}

func (c Clause) label(i int) string {
	if c.Label != "" {
		return c.Label
	}
	return strconv.Itoa(i)
}

type tmplVar struct{ name, typ string }

type Param struct {
	Name string
	Type types.Type
}

type Contract struct {
	Name       string
	File       string
	Fn         *ssa.Function
	PkgPath    string
	Props      []string
	ParamNames []string
	ResNames   []string
	Params     []Param
	Requires   []Clause
	Steady     []Clause // holds before and after every call made for a callee
	Progress   []Clause // the same, as long as no call returned an error
	Ensures    []Clause
	Modifies   []Clause
	Invs       []Clause
	Asserts    []Clause
	MergeCalls bool
	OnSend     []Clause        // hold at every channel send, over the value sent (msg)
	OnClose    []Clause        // hold at every close of a channel (ch)
	OnRecv     []Clause        // assumed of every value received (msg); senders must establish it
	Shared     []Clause        // memory other goroutines may change
	Rely       []Clause        // what they promise when they do
	CountCalls map[string]bool // calls(NAME) is used
	LastCalls  map[string]bool // last("NAME", x) is used
	Spawns     []Clause
	Before     map[string][]Clause // checked at each call of the named contract
	Panics     ast.Expr
	PanicsSrc  string
	MustPanic  bool // panics exactly when
	MayPanic   bool
	Trusted    bool
	NoAlloc    bool
	PureFn     bool
	InlineSelf bool
	Helper     bool // may disappear without harm
	Iface      bool
	Bind       []Clause  // parameter given a fixed dynamic type etc.
	Free       []tmplVar // arbitrary values that clauses may mention
	Timeout    int
	MaxPath    int
	Missing    string
	noInvAuto  bool
	noArith    bool // no invented invariants about numbers
	Merge      bool
}

func (c *Contract) Short() string { return c.Name }
func (c *Contract) Base() string {
	i := strings.LastIndexAny(c.Name, ".)")
	return c.Name[i+1:]
}

type Pred struct {
	name   string
	params []string
	body   ast.Expr
	pkg    string
}

type GhostFn struct {
	name   string
	params []tmplVar
	ret    string
	body   ast.Expr
	pkg    string
}

type TV struct {
	v Val
	t types.Type
}

type nilVal struct{}

// SeqV is a snapshot of slice contents.
type SeqV struct {
	rows []*Term
	off  *Term
	len  *Term
	elem types.Type
}

type Env struct {
	e    *Engine
	st   *State
	old  *State
	pre  *State
	vars map[string]TV
	oldv map[string]TV
	prev map[string]TV
	c    *Contract
	pkg  string
	dep  int
	ri   int // which result of a pure method is meant
}

func (env *Env) with(name string, v TV) *Env {
	n := *env
	n.vars = map[string]TV{}
	for k, x := range env.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

func (env *Env) bindResult(i, n int, name string, v TV) {
	env.vars[fmt.Sprintf("result%d", i)] = v
	if n == 1 {
		env.vars["result"] = v
	}
	if env.c != nil && i < len(env.c.ResNames) && env.c.ResNames[i] != "_" {
		env.vars[env.c.ResNames[i]] = v
	}
}

// ---------- parsing ----------

func convImp(s string) string {
	// convert inside parentheses first
	var out strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == '"' || c == '`' || c == '\'' {
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			out.WriteString(s[i : j+1])
			i = j + 1
			continue
		}
		if c == '(' || c == '[' || c == '{' {
			cl := map[byte]byte{'(': ')', '[': ']', '{': '}'}[c]
			d := 1
			j := i + 1
			for j < len(s) && d > 0 {
				if s[j] == '"' || s[j] == '\'' {
					q := s[j]
					j++
					for j < len(s) && s[j] != q {
						if s[j] == '\\' {
							j++
						}
						j++
					}
				} else if s[j] == c {
					d++
				} else if s[j] == cl {
					d--
				}
				j++
			}
			out.WriteByte(c)
			out.WriteString(convList(s[i+1 : j-1]))
			out.WriteByte(cl)
			i = j
			continue
		}
		out.WriteByte(c)
		i++
	}
	return splitImp(out.String())
}

func topLevel(s string, sep string) []string {
	var parts []string
	d := 0
	last := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '"', '\'', '`':
			q := s[i]
			i++
			for i < len(s) && s[i] != q {
				if s[i] == '\\' && q != '`' {
					i++
				}
				i++
			}
		default:
			if d == 0 && strings.HasPrefix(s[i:], sep) {
				parts = append(parts, s[last:i])
				i += len(sep) - 1
				last = i + 1
			}
		}
	}
	return append(parts, s[last:])
}

func convList(s string) string {
	ps := topLevel(s, ",")
	for i := range ps {
		ps[i] = convImp(ps[i])
	}
	return strings.Join(ps, ",")
}

func splitImp(s string) string {
	if ps := topLevel(s, "<==>"); len(ps) == 2 {
		return "iff(" + splitImp(ps[0]) + ", " + splitImp(ps[1]) + ")"
	}
	ps := topLevel(s, "==>")
	if len(ps) == 1 {
		return s
	}
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = "imp(" + ps[i] + ", " + r + ")"
	}
	return r
}

func parseExpr(src string) (ast.Expr, error) {
	x, err := parser.ParseExpr(convImp(src))
	if err != nil {
		return nil, fmt.Errorf("%v in %q (%s)", err, src, convImp(src))
	}
	return x, nil
}

var keywords = []string{"package", "func", "extern", "iface", "functype", "requires", "ensures", "modifies", "invariant", "assert", "panics_iff", "panics", "maypanic", "trusted",
	"pure", "noalloc", "inline", "helper", "props", "pred", "ghost", "bind", "spawn", "onsend", "onrecv", "onclose", "rely", "shared", "before", "timeout", "maxpath", "noauto", "noarith", "merge", "free", "assume", "steady", "progress"}

var chanRE = regexp.MustCompile(`^(\w+)\s+\[`)
var lastRE = regexp.MustCompile(`\blast\("([^"]+)"`)
var callsRE = regexp.MustCompile(`\bcalls\((\w+)\)`)

func firstWord(s string) string {
	for i := 0; i < len(s); i++ {
		if !(s[i] >= 'a' && s[i] <= 'z' || s[i] == '_') {
			return s[:i]
		}
	}
	return s
}

func (p *Program) loadContracts(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := p.parseSpec(f, string(b)); err != nil {
			return fmt.Errorf("%s: %v", f, err)
		}
	}
	return nil
}

func (p *Program) parseSpec(file, text string) error {
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && !strings.Contains(l[:i], "\"") {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := firstWord(t)
		isKw := false
		for _, k := range keywords {
			if w == k && (len(t) == len(w) || t[len(w)] == ' ' || t[len(w)] == '[') {
				isKw = true
			}
		}
		if isKw || len(lines) == 0 {
			lines = append(lines, t)
		} else {
			lines[len(lines)-1] += " " + t
		}
	}
	pkg := ""
	var cur *Contract
	var props []string
	for _, l := range lines {
		w := firstWord(l)
		rest := strings.TrimSpace(l[len(w):])
		clause := func() (Clause, error) {
			c := Clause{}
			if strings.HasPrefix(rest, "[") && w != "modifies" {
				j := strings.Index(rest, "]")
				// find matching bracket for types such as []byte
				d := 0
				for i := 0; i < len(rest); i++ {
					if rest[i] == '[' {
						d++
					}
					if rest[i] == ']' {
						d--
						if d == 0 {
							j = i
							break
						}
					}
				}
				in := rest[1:j]
				rest = strings.TrimSpace(rest[j+1:])
				if w == "invariant" {
					for _, v := range strings.Split(in, ",") {
						fs := strings.Fields(strings.TrimSpace(v))
						if len(fs) == 2 {
							c.Vars = append(c.Vars, tmplVar{fs[0], fs[1]})
						} else if len(fs) == 1 {
							c.Label = fs[0]
						}
					}
				} else {
					for _, v := range strings.Split(in, ",") {
						v = strings.TrimSpace(v)
						if v == "local" {
							c.Local = true
						} else {
							c.Label = v
						}
					}
				}
			}
			c.Src = rest
			x, err := parseExpr(rest)
			if err != nil {
				return c, err
			}
			c.Expr = x
			return c, nil
		}
		if cur != nil {
			for _, m := range callsRE.FindAllStringSubmatch(rest, -1) {
				if cur.CountCalls == nil {
					cur.CountCalls = map[string]bool{}
				}
				cur.CountCalls[m[1]] = true
			}
			for _, m := range lastRE.FindAllStringSubmatch(rest, -1) {
				if cur.LastCalls == nil {
					cur.LastCalls = map[string]bool{}
				}
				cur.LastCalls[m[1]] = true
			}
		}
		switch w {
		case "package":
			pkg = rest
			props = nil
			cur = nil
		case "props":
			ps := strings.Fields(rest)
			if cur == nil {
				props = ps
			} else {
				cur.Props = ps
			}
		case "func", "extern", "iface", "functype":
			cur = &Contract{File: filepath.Base(file), PkgPath: pkg, Props: props}
			// NAME(params) (results)
			name := rest
			var plist, rlist string
			// split trailing paren groups: the name may itself start with "(*T)."
			start := 0
			if strings.HasPrefix(name, "(") {
				start = strings.Index(name, ")") + 1
			}
			if j := strings.Index(name[start:], "("); j >= 0 {
				sig := name[start+j:]
				name = strings.TrimSpace(name[:start+j])
				e := strings.Index(sig, ")")
				plist = sig[1:e]
				r := strings.TrimSpace(sig[e+1:])
				r = strings.TrimSuffix(strings.TrimPrefix(r, "("), ")")
				rlist = r
			}
			cur.Name = name
			cur.ParamNames = splitNames(plist)
			cur.ResNames = splitNames(rlist)
			if w == "extern" {
				cur.Trusted = true
			}
			if w == "iface" || w == "functype" {
				cur.Iface = true
				cur.Trusted = true
			}
			if p.byName[name] != nil {
				return fmt.Errorf("duplicate contract %s", name)
			}
			p.byName[name] = cur
			p.contracts = append(p.contracts, cur)
		case "requires", "ensures", "assume", "invariant", "assert", "bind", "spawn", "onsend", "onrecv", "onclose", "rely", "steady", "progress":
			on := ""
			if m := chanRE.FindStringSubmatch(rest); m != nil && (w == "onsend" || w == "onrecv" || w == "onclose" || w == "spawn") {
				on = m[1]
				rest = rest[len(m[1]):]
				rest = strings.TrimSpace(rest)
			}
			c, err := clause()
			if err != nil {
				return err
			}
			c.Chan = on
			for _, v := range cur.Free {
				if w != "invariant" && mentions(c.Expr, v.name) {
					c.Local = true
				}
			}
			// Records are of what a function did itself: its caller's are its own.
			for _, r := range records {
				if w == "ensures" && !cur.Trusted && mentions(c.Expr, r) {
					c.Local = true
				}
			}
			switch w {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "steady":
				cur.Steady = append(cur.Steady, c)
			case "progress":
				cur.Progress = append(cur.Progress, c)
			case "assume":
				c.Assumed = true
				cur.Ensures = append(cur.Ensures, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "invariant":
				cur.Invs = append(cur.Invs, c)
			case "assert":
				cur.Asserts = append(cur.Asserts, c)
			case "bind":
				cur.Bind = append(cur.Bind, c)
			case "spawn": // holds at every go statement, over the arguments given
				cur.Spawns = append(cur.Spawns, c)
			case "onsend":
				cur.OnSend = append(cur.OnSend, c)
			case "onclose":
				cur.OnClose = append(cur.OnClose, c)
			case "onrecv":
				cur.OnRecv = append(cur.OnRecv, c)
			case "rely":
				cur.Rely = append(cur.Rely, c)
			}
		case "before": // before NAME [label] expr: holds at every call of NAME, over the arguments given
			i := strings.IndexAny(rest, " \t")
			if i < 0 {
				return fmt.Errorf("before clause without expression: %q", rest)
			}
			callee := rest[:i]
			rest = strings.TrimSpace(rest[i:])
			c, err := clause()
			if err != nil {
				return err
			}
			if cur.Before == nil {
				cur.Before = map[string][]Clause{}
			}
			cur.Before[callee] = append(cur.Before[callee], c)
		case "modifies", "shared":
			for _, m := range topLevel(rest, ",") {
				m = strings.TrimSpace(m)
				c := Clause{Src: m}
				if m != "*" {
					src := m
					src = strings.ReplaceAll(src, "[..]", "[:]")
					src = strings.ReplaceAll(src, ".*", ".ALL__")
					x, err := parser.ParseExpr(src)
					if err != nil {
						return fmt.Errorf("%v in modifies %q", err, m)
					}
					c.Expr = x
				}
				if w == "shared" {
					cur.Shared = append(cur.Shared, c)
				} else {
					cur.Modifies = append(cur.Modifies, c)
				}
			}
		case "panics", "panics_iff":
			x, err := parseExpr(rest)
			if err != nil {
				return err
			}
			cur.Panics = x
			cur.PanicsSrc = rest
			cur.MustPanic = w == "panics_iff"
		case "maypanic":
			cur.MayPanic = true
		case "trusted":
			cur.Trusted = true
		case "pure":
			cur.PureFn = true
			cur.NoAlloc = true
		case "noalloc":
			cur.NoAlloc = true
		case "inline":
			cur.InlineSelf = true
		case "free": // free x T: the clauses hold for every value of x
			fs := strings.Fields(rest)
			cur.Free = append(cur.Free, tmplVar{fs[0], fs[1]})
		case "helper":
			cur.Helper = true
		case "merge":
			cur.Merge = true
			cur.MergeCalls = strings.TrimSpace(rest) == "helpers" // only in named functions it inlines
		case "noauto":
			cur.noInvAuto = true
		case "noarith":
			cur.noArith = true
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(rest)
		case "maxpath":
			cur.MaxPath, _ = strconv.Atoi(rest)
		case "pred":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			k := strings.Index(rest, "=")
			name := strings.TrimSpace(rest[:i])
			x, err := parseExpr(rest[k+1:])
			if err != nil {
				return err
			}
			p.preds[name] = &Pred{name, splitNames(rest[i+1 : j]), x, pkg}
		case "ghost":
			i := strings.Index(rest, "(")
			j := strings.Index(rest, ")")
			k := strings.Index(rest, "=")
			name := strings.TrimSpace(rest[:i])
			g := &GhostFn{name: name, pkg: pkg}
			for _, v := range strings.Split(rest[i+1:j], ",") {
				fs := strings.Fields(v)
				g.params = append(g.params, tmplVar{fs[0], fs[1]})
			}
			if k > 0 {
				g.ret = strings.TrimSpace(rest[j+1 : k])
				x, err := parseExpr(rest[k+1:])
				if err != nil {
					return err
				}
				g.body = x
			} else {
				g.ret = strings.TrimSpace(rest[j+1:])
			}
			p.ghosts[name] = g
		}
	}
	return nil
}

func splitNames(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		x = strings.TrimSpace(x)
		if x == "" {
			continue
		}
		out = append(out, strings.Fields(x)[0])
	}
	return out
}

// ---------- evaluation ----------

type specErr string

func (s specErr) Error() string { return string(s) }

func sfail(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (e *Engine) evalBool(x ast.Expr, env *Env) *Term {
	v := e.eval(x, env)
	t, ok := v.v.(*Term)
	if !ok || t.sort != SBool {
		sfail("boolean expected in specification of %s", env.c.Name)
	}
	return t
}

func (e *Engine) evalInt(x ast.Expr, env *Env) *Term {
	v := e.eval(x, env)
	t, ok := v.v.(*Term)
	if !ok {
		sfail("integer expected in specification of %s", env.c.Name)
	}
	return t
}

var tInt = types.Typ[types.UntypedInt]
var tBool = types.Typ[types.Bool]
var tStr = types.Typ[types.String]

func (env *Env) pkgPath() string {
	if env.pkg != "" {
		return env.pkg
	}
	if env.c != nil {
		return env.c.PkgPath
	}
	return ""
}

func (e *Engine) eval(x ast.Expr, env *Env) TV {
	u := e.u
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.eval(n.X, env)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT, token.CHAR:
			return TV{u.Big(constBig(constant.MakeFromLiteral(n.Value, n.Kind, 0))), tInt}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return TV{e.strLit(s), tStr}
		}
	case *ast.Ident:
		if v, ok := env.vars[n.Name]; ok {
			return v
		}
		switch n.Name {
		case "true":
			return TV{u.True, tBool}
		case "false":
			return TV{u.False, tBool}
		case "nil":
			return TV{nilVal{}, nil}
		}
		if pk := e.P.pkgs[env.pkgPath()]; pk != nil {
			if v, ok := e.scopeVal(pk, n.Name, env.st); ok {
				return v
			}
		}
		sfail("unknown name %s in specification of %s", n.Name, env.c.Name)
	case *ast.UnaryExpr:
		if n.Op == token.AND { // address of a field
			p, t := e.evalAddr(n.X, env)
			return TV{p, types.NewPointer(t)}
		}
		v := e.eval(n.X, env)
		switch n.Op {
		case token.NOT:
			return TV{u.Not(v.v.(*Term)), tBool}
		case token.SUB:
			return TV{u.Neg(v.v.(*Term)), tInt}
		}
	case *ast.BinaryExpr:
		return e.evalBin(n, env)
	case *ast.StarExpr:
		v := e.eval(n.X, env)
		p := v.v.(Ptr)
		et := v.t.Underlying().(*types.Pointer).Elem()
		return TV{e.load(env.st, p, et), et}
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := env.vars[id.Name]; !bound {
				if pk := e.P.pkgByShort(env.pkgPath(), id.Name); pk != nil {
					if v, ok := e.scopeVal(pk, n.Sel.Name, env.st); ok {
						return v
					}
					sfail("no %s.%s", id.Name, n.Sel.Name)
				}
			}
		}
		v := e.eval(n.X, env)
		return e.field(v, n.Sel.Name, env)
	case *ast.IndexExpr:
		v := e.eval(n.X, env)
		if sq, ok := v.v.(SeqV); ok {
			i := e.evalInt(n.Index, env)
			return e.seqAt(env, sq, i)
		}
		switch t := v.t.Underlying().(type) {
		case *types.Slice:
			i := e.evalInt(n.Index, env)
			s := v.v.(SliceV)
			return TV{e.load(env.st, e.elemPtr(t.Elem(), s.ref, u.Add(s.off, i)), t.Elem()), t.Elem()}
		case *types.Basic:
			return TV{e.sat(v.v.(*Term), e.evalInt(n.Index, env)), types.Typ[types.Uint8]}
		case *types.Array:
			av := v.v.(*ArrayV)
			i := e.evalInt(n.Index, env)
			var ts []*Term
			for k, c := range comps(t.Elem()) {
				ts = append(ts, e.rangeTerm(c, u.Select(av.comp[k], i)))
			}
			return TV{e.fromComps(env.st, t.Elem(), ts), t.Elem()}
		case *types.Map:
			k := e.eval(n.Index, env)
			_, val := e.mapGet(env.st, e.T(v.v), t, k.v)
			return TV{val, t.Elem()}
		}
	case *ast.SliceExpr:
		v := e.eval(n.X, env)
		lo := u.I(0)
		if n.Low != nil {
			lo = e.evalInt(n.Low, env)
		}
		switch s := v.v.(type) {
		case *Term:
			hi := e.slen(s)
			if n.High != nil {
				hi = e.evalInt(n.High, env)
			}
			return TV{e.ssub(s, lo, hi), v.t}
		case SliceV:
			hi := s.len
			if n.High != nil {
				hi = e.evalInt(n.High, env)
			}
			return TV{SliceV{s.ref, u.Add(s.off, lo), u.Sub(hi, lo), u.Sub(s.cap, lo)}, v.t}
		}
	case *ast.CallExpr:
		return e.evalCall(n, env)
	}
	sfail("cannot evaluate %T in specification of %s", x, env.c.Name)
	panic("")
}

func (e *Engine) scopeVal(pk *ssa.Package, name string, st *State) (TV, bool) {
	switch m := pk.Members[name].(type) {
	case *ssa.NamedConst:
		return TV{e.constVal(m.Value), m.Type()}, true
	case *ssa.Global:
		t := m.Type().Underlying().(*types.Pointer).Elem()
		if v, ok := e.globalVal(st, m); ok {
			return TV{v, t}, true
		}
		return TV{e.load(st, e.globalPtr(m), t), t}, true
	case *ssa.Function:
		return TV{FuncV{fn: m}, m.Signature}, true
	}
	return TV{}, false
}

// evalAddr: the address an expression denotes, and the type found there.
func (e *Engine) evalAddr(x ast.Expr, env *Env) (Ptr, types.Type) {
	switch n := x.(type) {
	case *ast.ParenExpr:
		return e.evalAddr(n.X, env)
	case *ast.StarExpr:
		v := e.eval(n.X, env)
		return v.v.(Ptr), v.t.Underlying().(*types.Pointer).Elem()
	case *ast.SelectorExpr:
		var p Ptr
		var t types.Type
		if v := e.eval(n.X, env); v.t != nil {
			if pt, ok := v.t.Underlying().(*types.Pointer); ok {
				p, t = v.v.(Ptr), pt.Elem()
			}
		}
		if t == nil {
			p, t = e.evalAddr(n.X, env)
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == n.Sel.Name {
					return e.fieldPtr(p, t, i), s.Field(i).Type()
				}
			}
			for i := 0; i < s.NumFields(); i++ { // promoted through an embedded field
				f := s.Field(i)
				if !f.Embedded() {
					continue
				}
				fp, ft := e.fieldPtr(p, t, i), f.Type()
				if pt, ok := ft.Underlying().(*types.Pointer); ok {
					fp, ft = e.load(env.st, fp, ft).(Ptr), pt.Elem()
				}
				if es, ok := ft.Underlying().(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						if es.Field(j).Name() == n.Sel.Name {
							return e.fieldPtr(fp, ft, j), es.Field(j).Type()
						}
					}
				}
			}
		}
	}
	sfail("not an address in specification of %s", env.c.Name)
	panic("")
}

func (e *Engine) field(v TV, name string, env *Env) TV {
	t := v.t
	if t == nil {
		sfail("field %s of untyped value in %s", name, env.c.Name)
	}
	if iv, ok := v.v.(IfaceV); ok && iv.dyn != nil {
		return e.field(TV{iv.val, iv.dyn}, name, env)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s, ok := p.Elem().Underlying().(*types.Struct)
		if !ok {
			sfail("field %s of %s", name, t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				fp := e.fieldPtr(v.v.(Ptr), p.Elem(), i)
				if isAgg(s.Field(i).Type()) && !isArray(s.Field(i).Type()) {
					// keep as an object so nested fields stay addressable
					return TV{e.load(env.st, fp, s.Field(i).Type()), s.Field(i).Type()}
				}
				return TV{e.load(env.st, fp, s.Field(i).Type()), s.Field(i).Type()}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				fp := e.fieldPtr(v.v.(Ptr), p.Elem(), i)
				fv := TV{e.load(env.st, fp, s.Field(i).Type()), s.Field(i).Type()}
				if hasField(s.Field(i).Type(), name) {
					return e.field(fv, name, env)
				}
			}
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				if ot, ok := v.v.(*Term); ok {
					return TV{e.opaqueField(env.st, ot, t, i), s.Field(i).Type()}
				}
				return TV{v.v.(*StructV).f[i], s.Field(i).Type()}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() && hasField(s.Field(i).Type(), name) {
				return e.field(TV{v.v.(*StructV).f[i], s.Field(i).Type()}, name, env)
			}
		}
	}
	sfail("no field %s in %s", name, t)
	panic("")
}

func hasField(t types.Type, name string) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (e *Engine) seqOf(st *State, v TV) SeqV {
	if sq, ok := v.v.(SeqV); ok {
		return sq
	}
	sl, ok := v.t.Underlying().(*types.Slice)
	if !ok {
		sfail("seq of %s", v.t)
	}
	s := v.v.(SliceV)
	r := SeqV{off: s.off, len: s.len, elem: sl.Elem()}
	for _, c := range comps(sl.Elem()) {
		r.rows = append(r.rows, e.u.Select(e.heapGet(st, "E$"+elemKey(sl.Elem())+c.suffix, arr(SInt, arr(SInt, c.sort))), s.ref))
	}
	return r
}

func (e *Engine) seqAt(env *Env, s SeqV, i *Term) TV {
	var ts []*Term
	for k, c := range comps(s.elem) {
		ts = append(ts, e.rangeTerm(c, e.u.Select(s.rows[k], e.u.Add(s.off, i))))
	}
	return TV{e.fromComps(env.st, s.elem, ts), s.elem}
}

func (e *Engine) specEq(a, b TV, env *Env) *Term {
	u := e.u
	if _, ok := a.v.(nilVal); ok {
		a, b = b, a
	}
	if _, ok := b.v.(nilVal); ok {
		switch x := a.v.(type) {
		case IfaceV:
			return u.Eq(x.tag, u.I(0))
		case SliceV:
			return u.Eq(x.ref, u.I(0))
		case Ptr:
			return u.Eq(e.ptrTerm(x), u.I(0))
		case FuncV:
			return u.Eq(e.funcTerm(x), u.I(0))
		case *Term:
			return u.Eq(x, u.I(0))
		case nilVal:
			return u.True
		}
	}
	if ia, ok := a.v.(IfaceV); ok {
		if _, ok := b.v.(IfaceV); !ok {
			b = TV{e.mkIface(env.st, b.t, b.v), a.t}
		}
		_ = ia
	} else if _, ok := b.v.(IfaceV); ok {
		a = TV{e.mkIface(env.st, a.t, a.v), b.t}
	}
	return e.valEq(env.st, a.v, b.v, a.t)
}

func (e *Engine) evalBin(n *ast.BinaryExpr, env *Env) TV {
	u := e.u
	switch n.Op {
	case token.LAND:
		a := e.evalBool(n.X, env)
		if a == u.False {
			return TV{u.False, tBool}
		}
		return TV{u.And(a, e.evalBool(n.Y, env)), tBool}
	case token.LOR:
		return TV{u.Or(e.evalBool(n.X, env), e.evalBool(n.Y, env)), tBool}
	}
	a, b := e.eval(n.X, env), e.eval(n.Y, env)
	switch n.Op {
	case token.EQL:
		return TV{e.specEq(a, b, env), tBool}
	case token.NEQ:
		return TV{u.Not(e.specEq(a, b, env)), tBool}
	}
	x, ok1 := a.v.(*Term)
	y, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		sfail("arithmetic on %T, %T in %s", a.v, b.v, env.c.Name)
	}
	if x.sort == SStr {
		switch n.Op {
		case token.ADD:
			return TV{e.scat(x, y), tStr}
		case token.LSS:
			return TV{u.App("slt", SBool, x, y), tBool}
		}
		sfail("string operator %s", n.Op)
	}
	switch n.Op {
	case token.LSS:
		return TV{u.Lt(x, y), tBool}
	case token.LEQ:
		return TV{u.Le(x, y), tBool}
	case token.GTR:
		return TV{u.Lt(y, x), tBool}
	case token.GEQ:
		return TV{u.Le(y, x), tBool}
	case token.ADD:
		return TV{u.Add(x, y), tInt}
	case token.SUB:
		return TV{u.Sub(x, y), tInt}
	case token.MUL:
		return TV{u.Mul(x, y), tInt}
	case token.QUO: // floor division
		return TV{u.Div(x, y), tInt}
	case token.REM:
		return TV{u.Mod(x, y), tInt}
	case token.AND:
		return TV{e.bitop(token.AND, x, y, types.Typ[types.Uint64]), tInt}
	case token.SHL:
		if y.isInt() {
			return TV{u.Mul(x, u.Big(pow2(uint(y.num.Int64())))), tInt}
		}
	}
	sfail("operator %s", n.Op)
	panic("")
}

func (env *Env) at(st *State, vars map[string]TV) *Env {
	n := *env
	n.st = st
	if vars != nil {
		n.vars = map[string]TV{}
		for k, v := range env.vars {
			n.vars[k] = v
		}
		for k, v := range vars {
			n.vars[k] = v
		}
	}
	return &n
}

func (e *Engine) evalCall(n *ast.CallExpr, env *Env) TV {
	u := e.u
	name := ""
	if id, ok := n.Fun.(*ast.Ident); ok {
		name = id.Name
	}
	arg := func(i int) TV { return e.eval(n.Args[i], env) }
	iarg := func(i int) *Term { return e.evalInt(n.Args[i], env) }
	switch name {
	case "old":
		return e.eval(n.Args[0], env.at(env.old, env.oldv))
	case "pre":
		if env.pre == nil {
			sfail("pre() outside a loop invariant")
		}
		return e.eval(n.Args[0], env.at(env.pre, env.prev))
	case "imp":
		a := e.evalBool(n.Args[0], env)
		if a == u.False {
			return TV{u.True, tBool}
		}
		return TV{u.Imp(a, e.evalBool(n.Args[1], env)), tBool}
	case "iff":
		return TV{u.Eq(e.evalBool(n.Args[0], env), e.evalBool(n.Args[1], env)), tBool}
	case "ite":
		c := e.evalBool(n.Args[0], env)
		a, b := arg(1), arg(2)
		return TV{u.Ite(c, e.T(a.v), e.T(b.v)), a.t}
	case "forall", "exists":
		v := n.Args[0].(*ast.Ident).Name
		bv := u.BVar(v, SInt)
		in := env.with(v, TV{bv, tInt})
		lo, hi := iarg(1), iarg(2)
		body := e.evalBool(n.Args[3], in)
		rng := u.And(u.Le(lo, bv), u.Lt(bv, hi))
		if name == "forall" {
			return TV{u.Forall([]*Term{bv}, u.Imp(rng, body)), tBool}
		}
		return TV{u.Exists([]*Term{bv}, u.And(rng, body)), tBool}
	case "foralls": // over all strings
		v := n.Args[0].(*ast.Ident).Name
		bv := u.BVar(v, SStr)
		return TV{u.Forall([]*Term{bv}, e.evalBool(n.Args[1], env.with(v, TV{bv, tStr}))), tBool}
	case "foralln": // over all integers
		v := n.Args[0].(*ast.Ident).Name
		bv := u.BVar(v, SInt)
		return TV{u.Forall([]*Term{bv}, e.evalBool(n.Args[1], env.with(v, TV{bv, tInt}))), tBool}
	case "forallv", "existsv": // forallv(k, T, P): over all values of type T
		v := n.Args[0].(*ast.Ident).Name
		t := e.P.typeByExpr(env.pkgPath(), n.Args[1])
		var bvs []*Term
		for _, c := range comps(t) {
			bvs = append(bvs, u.BVar(v+c.suffix, c.sort))
		}
		body := e.evalBool(n.Args[2], env.with(v, TV{e.fromComps(env.st, t, bvs), t}))
		if name == "existsv" {
			return TV{u.Not(u.Forall(bvs, u.Not(body))), tBool}
		}
		return TV{u.Forall(bvs, body), tBool}
	case "keyof": // keyof(g): the address of package variable g, as an interface value
		if pk := e.P.pkgs[env.pkgPath()]; pk != nil {
			if g, ok := pk.Members[n.Args[0].(*ast.Ident).Name].(*ssa.Global); ok {
				return TV{e.mkIface(env.st, g.Type(), e.globalPtr(g)), types.Universe.Lookup("any").Type()}
			}
		}
		sfail("keyof: no such package variable")
	case "iface": // iface(x): x as an interface value
		v := arg(0)
		return TV{e.mkIface(env.st, v.t, v.v), types.Universe.Lookup("any").Type()}
	case "sprintf": // text fmt.Sprintf gives for these arguments
		var ts []*Term
		for i := range n.Args {
			v := arg(i)
			if i == 0 {
				ts = append(ts, e.T(v.v))
				continue
			}
			iv, ok := v.v.(IfaceV)
			if !ok {
				iv = e.mkIface(env.st, v.t, v.v)
			}
			ts = append(ts, iv.tag, iv.pay)
		}
		return TV{e.sprintfTerm(ts), tStr}
	case "len":
		v := arg(0)
		switch x := v.v.(type) {
		case SliceV:
			return TV{x.len, tInt}
		case SeqV:
			return TV{x.len, tInt}
		case *ArrayV:
			return TV{u.I(x.n), tInt}
		case *Term:
			if x.sort == SStr {
				return TV{e.slen(x), tInt}
			}
			if m, ok := v.t.Underlying().(*types.Map); ok {
				h := e.heapGet(env.st, mapHeap(m)+".n", arr(SInt, SInt))
				return TV{u.typeRange(u.Select(h, x), new(big.Int), maxLen), tInt}
			}
		}
		sfail("len of %T", v.v)
	case "cap":
		return TV{arg(0).v.(SliceV).cap, tInt}
	case "min", "max":
		r := iarg(0)
		for i := 1; i < len(n.Args); i++ {
			t := iarg(i)
			if name == "min" {
				r = u.Ite(u.Lt(t, r), t, r)
			} else {
				r = u.Ite(u.Lt(r, t), t, r)
			}
		}
		return TV{r, tInt}
	case "seq":
		return TV{e.seqOf(env.st, arg(0)), nil}
	case "string", "str":
		v := arg(0)
		if s, ok := v.v.(SliceV); ok {
			return TV{e.bytesToStr(env.st, s), tStr}
		}
		return TV{v.v, tStr}
	case "uint8", "byte", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "int", "uint":
		b := types.Universe.Lookup(name).Type().Underlying().(*types.Basic)
		return TV{u.wrap(iarg(0), b), b}
	case "wlen":
		w := e.writerTerm(env.st, arg(0))
		return TV{e.wlen(env.st, w), tInt}
	case "wbyte":
		w := e.writerTerm(env.st, arg(0))
		return TV{e.wbyte(env.st, w, iarg(1)), types.Typ[types.Uint8]}
	case "rpos":
		return TV{e.readerView(env.st, arg(0)).at, tInt}
	case "rlen":
		v := e.readerView(env.st, arg(0))
		return TV{u.Add(v.at, v.avail), tInt}
	case "rbyte":
		return TV{u.typeRange(u.Select(e.readerView(env.st, arg(0)).row, iarg(1)), new(big.Int), byteMax), types.Typ[types.Uint8]}
	case "content": // byte i of the stream with identity id
		return TV{u.typeRange(u.Select(u.App("rcont", sArrII, iarg(0)), iarg(1)), new(big.Int), byteMax), types.Typ[types.Uint8]}
	case "obj": // obj(id, T): the object of type T with identity id
		t := types.NewPointer(e.P.typeByExpr(env.pkgPath(), n.Args[1]))
		return TV{Ptr{kind: PObj, addr: iarg(0)}, t}
	case "asize":
		return TV{e.asize(e.payTerm(arg(0))), tInt}
	case "abyte":
		return TV{e.abyte(e.payTerm(arg(0)), iarg(1)), types.Typ[types.Uint8]}
	case "second": // second result of a pure method
		in := *env
		in.ri = 1
		return e.eval(n.Args[0], &in)
	case "gvar": // ghost variable: gvar(name, object)
		hn := "G$v$" + n.Args[0].(*ast.Ident).Name
		a := u.I(0)
		if len(n.Args) > 1 {
			a = e.payTerm(arg(1))
		}
		return TV{u.Select(e.heapGet(env.st, hn, arr(SInt, SInt)), a), tInt}
	case "spawned": // go statements executed so far
		return TV{u.Select(e.heapGet(env.st, "G$spawns", arr(SInt, SInt)), u.I(0)), tInt}
	case "sends", "closes", "adds", "dones", "waits": // channel sends and closes, calls of (*sync.WaitGroup).Add, Done and Wait so far: in all or on one object
		if len(n.Args) == 0 {
			return TV{u.Select(e.heapGet(env.st, "G$"+name+"$all", arr(SInt, SInt)), u.I(0)), tInt}
		}
		return TV{u.Select(e.heapGet(env.st, "G$"+name, arr(SInt, SInt)), e.payTerm(arg(0))), tInt}
	case "settled": // settled(wg): waited for after the latest addition to it
		return TV{u.Select(e.heapGet(env.st, "G$settled", arr(SInt, SBool)), e.payTerm(arg(0))), tBool}
	case "lastadded": // the group latest added to
		return TV{u.Select(e.heapGet(env.st, "G$lastadded", arr(SInt, SInt)), u.I(0)), tInt}
	case "notifies": // notifies(f): the group whose Done f is
		return TV{u.App("notifies", SInt, e.payTerm(arg(0))), tInt}
	case "recvs": // recvs(T): values of type T received so far
		t := e.P.typeByExpr(env.pkgPath(), n.Args[0])
		return TV{u.Select(e.heapGet(env.st, "G$recvs$"+typeKey(t), arr(SInt, SInt)), u.I(0)), tInt}
	case "received": // received(T): the latest value of type T received
		t := e.P.typeByExpr(env.pkgPath(), n.Args[0])
		return TV{e.getGhost(env.st, "G$received$"+typeKey(t), t), t}
	case "last": // last("NAME", x): parameter or result x of the latest call of NAME
		cn, err := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		if err != nil {
			sfail("last: %v", err)
		}
		x := n.Args[1].(*ast.Ident).Name
		c := e.P.byName[cn]
		if c == nil {
			sfail("last: no contract named %q", cn)
		}
		t := e.P.typeIn(c, x)
		if t == nil {
			sfail("last: %s has no parameter or result %s", cn, x)
		}
		return TV{e.getGhost(env.st, "G$last$"+cn+"$"+x, t), t}
	case "calls": // calls of NAME so far
		return TV{u.Select(e.heapGet(env.st, "G$calls$"+n.Args[0].(*ast.Ident).Name, arr(SInt, SInt)), u.I(0)), tInt}
	case "fresh":
		v := arg(0)
		a := e.payTerm(v)
		return TV{u.And(u.Le(env.old.top, e.birth(a)), u.Not(u.Eq(a, u.I(0)))), tBool}
	case "alive": // allocated by now
		return TV{u.Lt(e.birth(e.payTerm(arg(0))), env.st.top), tBool}
	case "ref":
		return TV{e.payTerm(arg(0)), tInt}
	case "has": // map membership
		m := arg(0)
		k := arg(1)
		d, _ := e.mapGet(env.st, e.T(m.v), m.t.Underlying().(*types.Map), k.v)
		return TV{d, tBool}
	case "typeis":
		v := arg(0).v.(IfaceV)
		t := e.P.typeByExpr(env.pkgPath(), n.Args[1])
		if it, ok := t.Underlying().(*types.Interface); ok {
			if v.dyn != nil {
				return TV{u.B(e.P.implements(v.dyn, it)), tBool}
			}
			return TV{u.And(u.Not(u.Eq(v.tag, u.I(0))), u.App("impl$"+typeKey(t), SBool, v.tag)), tBool}
		}
		return TV{u.Eq(v.tag, u.I(e.P.tagOf(t))), tBool}
	case "as":
		v := arg(0).v.(IfaceV)
		t := e.P.typeByExpr(env.pkgPath(), n.Args[1])
		if _, ok := t.Underlying().(*types.Interface); ok {
			return TV{v, t}
		}
		if v.dyn != nil && typeKey(v.dyn) == typeKey(t) {
			return TV{v.val, t}
		}
		return TV{e.unbox(env.st, t, v.pay), t}
	case "unknown": // arbitrary value (havoc) of int type
		return TV{u.Fresh("unk", SInt), tInt}
	}
	if p, ok := e.P.preds[name]; ok {
		in := *env
		in.vars = map[string]TV{}
		for i, pn := range p.params {
			in.vars[pn] = arg(i)
		}
		in.pkg = p.pkg
		in.dep++
		if in.dep > 20 {
			sfail("pred recursion %s", name)
		}
		// old() inside predicates refers to the same arguments
		in.oldv = nil
		return e.eval(p.body, &in)
	}
	if g, ok := e.P.ghosts[name]; ok {
		var as []TV
		for i := range n.Args {
			as = append(as, arg(i))
		}
		return e.ghostApp(g, as, env)
	}
	// methods with pure contracts: x.M(args)
	if se, ok := n.Fun.(*ast.SelectorExpr); ok {
		if id, isId := se.X.(*ast.Ident); isId {
			if _, bound := env.vars[id.Name]; !bound && e.P.pkgByShort(env.pkgPath(), id.Name) != nil {
				if pk := e.P.pkgByShort(env.pkgPath(), id.Name); pk != nil {
					if fn, ok := pk.Members[se.Sel.Name].(*ssa.Function); ok {
						return e.pureApp(fn, n, nil, env)
					}
				}
			}
		}
		recv := e.eval(se.X, env)
		if recv.t != nil {
			if iv, ok := recv.v.(IfaceV); ok && iv.dyn == nil {
				if it, ok := recv.t.Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if m := it.Method(i); m.Name() == se.Sel.Name {
							if ct := e.P.ifaceContract(recv.t, m); ct != nil && ct.PureFn {
								ri := env.ri
								in := *env
								in.ri = 0
								env = &in
								as := []Val{recv.v}
								for j := range n.Args {
									as = append(as, arg(j).v)
								}
								t := m.Type().(*types.Signature).Results().At(ri).Type()
								v := e.pureResult(ct, env.st, as, ri, t)
								e.pureFacts(ct, as, TV{v, t}, env)
								return TV{v, t}
							}
						}
					}
				}
			}
			fn := e.P.methodByName(recv.t, se.Sel.Name)
			if fn != nil {
				return e.pureApp(fn, n, &recv, env)
			}
		}
	}
	if name != "" {
		if pk := e.P.pkgs[env.pkgPath()]; pk != nil {
			if fn, ok := pk.Members[name].(*ssa.Function); ok {
				return e.pureApp(fn, n, nil, env)
			}
		}
	}
	sfail("unknown function %v in specification of %s", n.Fun, env.c.Name)
	panic("")
}

// pureFacts attaches the ensures of a pure interface method to its result.
func (e *Engine) pureFacts(ct *Contract, as []Val, r TV, env *Env) {
	t, ok := r.v.(*Term)
	if !ok || t.bound || len(t.facts) > 2 {
		return
	}
	en := e.callEnv(ct, env.st, as)
	en.bindResult(0, 1, "", r)
	for _, c := range ct.Ensures {
		e.u.addFact(t, e.evalBool(c.Expr, en))
	}
}

// pureApp evaluates a call of a real, loop-free, effect-free function inside a
// specification by symbolic execution of its body.
func (e *Engine) pureApp(fn *ssa.Function, n *ast.CallExpr, recv *TV, env *Env) TV {
	var as []Val
	if recv != nil {
		as = append(as, recv.v)
	}
	for i := range n.Args {
		as = append(as, e.eval(n.Args[i], env).v)
	}
	if ct := e.P.contractFor(fn); ct != nil && ct.PureFn {
		t := fn.Signature.Results().At(0).Type()
		v := e.pureResult(ct, env.st, as, 0, t)
		e.pureFacts(ct, as, TV{v, t}, env)
		return TV{v, t}
	}
	sfail("function %s used in a specification needs a pure contract", fn)
	panic("")
}

func (e *Engine) ghostApp(g *GhostFn, as []TV, env *Env) TV {
	u := e.u
	var ts []*Term
	for i := range as {
		if strings.HasPrefix(g.params[i].typ, "seq") {
			s := e.seqOf(env.st, as[i])
			as[i] = TV{s, nil}
			ts = append(ts, s.rows...)
			ts = append(ts, s.off)
			continue
		}
		if t, ok := as[i].v.(*Term); ok {
			ts = append(ts, t)
			continue
		}
		ts = append(ts, e.toComps(as[i].v, as[i].t)...)
	}
	var s Sort
	var rt types.Type
	switch g.ret {
	case "bool":
		s, rt = SBool, tBool
	case "string":
		s, rt = SStr, tStr
	default:
		s, rt = SInt, tInt
	}
	t := u.App("gf$"+g.name, s, ts...)
	if s == SStr {
		e.strFacts(t)
	}
	if g.ret == "nat" && !t.bound {
		u.addFact(t, u.Le(u.I(0), t))
		if !e.natSeen[g.name] {
			e.natSeen[g.name] = true
			e.natCheck(g, as, env)
		}
	}
	if g.body != nil && !t.bound && env.dep < 2 && !e.unfolded[t] {
		e.unfolded[t] = true
		in := *env
		in.vars = map[string]TV{}
		for i, p := range g.params {
			in.vars[p.name] = as[i]
		}
		in.pkg = g.pkg
		in.dep++
		in.oldv = nil
		b := e.eval(g.body, &in)
		if s == SStr {
			u.addFact(t, e.strEq(t, b.v.(*Term)))
		} else {
			u.addFact(t, u.Eq(t, b.v.(*Term)))
		}
	}
	return TV{t, rt}
}

func (e *Engine) payTerm(v TV) *Term {
	switch x := v.v.(type) {
	case IfaceV:
		return x.pay
	case Ptr:
		return e.ptrTerm(x)
	case SliceV:
		return x.ref
	case *Term:
		return x
	case FuncV:
		return e.T(x)
	}
	sfail("address of %T", v.v)
	panic("")
}

// ---------- modifies ----------

func (e *Engine) modLocs(m Clause, env *Env) []modLoc {
	switch n := m.Expr.(type) {
	case *ast.CallExpr:
		name := n.Fun.(*ast.Ident).Name
		switch name {
		case "W":
			return e.writerLocs(env.st, e.eval(n.Args[0], env))
		case "R":
			return e.readerLocs(env.st, e.eval(n.Args[0], env))
		case "elems", "anyelems": // whole backing row, or all rows of that type
			if at, ok := n.Args[0].(*ast.ArrayType); ok && name == "anyelems" { // anyelems([]T)
				el := e.P.typeByExpr(env.pkgPath(), at.Elt)
				var out []modLoc
				for _, c := range comps(el) {
					out = append(out, modLoc{heap: "E$" + elemKey(el) + c.suffix, sort: arr(SInt, arr(SInt, c.sort)), addr: e.u.I(0), any: true})
				}
				return out
			}
			v := e.eval(n.Args[0], env)
			sl := v.t.Underlying().(*types.Slice)
			var out []modLoc
			for _, c := range comps(sl.Elem()) {
				out = append(out, modLoc{heap: "E$" + elemKey(sl.Elem()) + c.suffix, sort: arr(SInt, arr(SInt, c.sort)), addr: v.v.(SliceV).ref, any: name == "anyelems"})
			}
			return out
		case "mapof", "anymap": // one map, or all maps of its type
			v := e.eval(n.Args[0], env)
			ls := e.mapLocs(v)
			if name == "anymap" {
				for i := range ls {
					ls[i].any = true
				}
			}
			return ls
		case "anyfield": // anyfield(T.f)
			src := n.Args[0].(*ast.SelectorExpr)
			t := e.P.typeByExpr(env.pkgPath(), src.X)
			s := t.Underlying().(*types.Struct)
			var out []modLoc
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == src.Sel.Name {
					for _, c := range comps(s.Field(i).Type()) {
						out = append(out, modLoc{heap: structKeyOf(t) + "." + src.Sel.Name + c.suffix, sort: arr(SInt, c.sort), any: true})
					}
				}
			}
			return out
		case "gvar":
			a := e.u.I(0)
			if len(n.Args) > 1 {
				a = e.payTerm(e.eval(n.Args[1], env))
			}
			return []modLoc{{heap: "G$v$" + n.Args[0].(*ast.Ident).Name, sort: arr(SInt, SInt), addr: a}}
		case "anyg":
			return []modLoc{{heap: "G$v$" + n.Args[0].(*ast.Ident).Name, sort: arr(SInt, SInt), any: true}}
		case "callback": // whatever the function does is its own contract's matter
			return nil
		case "spawned":
			return []modLoc{{heap: "G$spawns", sort: arr(SInt, SInt), addr: e.u.I(0)}}
		case "heap": // heap("name", "sort")
			hn, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
			hs, _ := strconv.Unquote(n.Args[1].(*ast.BasicLit).Value)
			return []modLoc{{heap: hn, sort: Sort(hs), any: true}}
		}
	case *ast.SliceExpr:
		v := e.eval(n.X, env)
		sl, ok := v.t.Underlying().(*types.Slice)
		if !ok {
			sfail("modifies %s", m.Src)
		}
		s := v.v.(SliceV)
		if isAgg(sl.Elem()) {
			sfail("modifies elements of struct slice")
		}
		var out []modLoc
		for _, c := range comps(sl.Elem()) {
			out = append(out, modLoc{heap: "E$" + elemKey(sl.Elem()) + c.suffix, sort: arr(SInt, arr(SInt, c.sort)), addr: s.ref, lo: s.off, hi: e.u.Add(s.off, s.len)})
		}
		return out
	case *ast.SelectorExpr:
		v := e.eval(n.X, env)
		if iv, ok := v.v.(IfaceV); ok && iv.dyn != nil {
			v = TV{iv.val, iv.dyn}
		}
		p, ok := v.t.Underlying().(*types.Pointer)
		if !ok { // field of a nested struct
			bp, bt := e.evalAddr(n.X, env)
			v = TV{bp, types.NewPointer(bt)}
			p = v.t.(*types.Pointer)
		}
		a := v.v.(Ptr).addr
		if n.Sel.Name == "ALL__" {
			return e.structLocs(p.Elem(), a, nil)
		}
		s := p.Elem().Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == n.Sel.Name {
				return e.fieldLocs(p.Elem(), structKeyOf(p.Elem()), s.Field(i), a, nil)
			}
		}
		fp, ft := e.evalAddr(n, env) // promoted field
		if fp.kind == PField {
			var out []modLoc
			for _, c := range comps(ft) {
				out = append(out, modLoc{heap: fp.heap + c.suffix, sort: arr(SInt, c.sort), addr: fp.addr})
			}
			return out
		}
	case *ast.StarExpr:
		v := e.eval(n.X, env)
		et := v.t.Underlying().(*types.Pointer).Elem()
		if isStruct(et) {
			return e.structLocs(et, v.v.(Ptr).addr, nil)
		}
		var out []modLoc
		p := v.v.(Ptr)
		for _, c := range comps(et) {
			switch p.kind {
			case PObj:
				out = append(out, modLoc{heap: "C$" + elemKey(et) + c.suffix, sort: arr(SInt, c.sort), addr: p.addr})
			case PField:
				out = append(out, modLoc{heap: p.heap + c.suffix, sort: arr(SInt, c.sort), addr: p.addr})
			case PElem:
				out = append(out, modLoc{heap: p.heap + c.suffix, sort: arr(SInt, arr(SInt, c.sort)), addr: p.ref, lo: p.idx, hi: e.u.AddI(p.idx, 1)})
			}
		}
		return out
	case *ast.Ident: // global variable
		if pk := e.P.pkgs[env.pkgPath()]; pk != nil {
			if g, ok := pk.Members[n.Name].(*ssa.Global); ok {
				t := g.Type().Underlying().(*types.Pointer).Elem()
				a := e.globalPtr(g).addr
				if isStruct(t) {
					return e.structLocs(t, a, nil)
				}
				var out []modLoc
				for _, c := range comps(t) {
					out = append(out, modLoc{heap: "C$" + elemKey(t) + c.suffix, sort: arr(SInt, c.sort), addr: a})
				}
				return out
			}
		}
	}
	sfail("cannot interpret modifies %s", m.Src)
	panic("")
}

func (e *Engine) mapLocs(v TV) []modLoc {
	m := v.t.Underlying().(*types.Map)
	a := e.T(v.v)
	ks := e.keySort(m)
	out := []modLoc{{heap: mapHeap(m) + ".dom", sort: arr(SInt, arr(ks, SBool)), addr: a}, {heap: mapHeap(m) + ".n", sort: arr(SInt, SInt), addr: a}}
	et := m.Elem()
	if s, ok := et.Underlying().(*types.Struct); ok && isAgg(et) {
		for i := 0; i < s.NumFields(); i++ {
			for _, c := range comps(s.Field(i).Type()) {
				out = append(out, modLoc{heap: mapHeap(m) + ".val." + s.Field(i).Name() + c.suffix, sort: arr(SInt, arr(ks, c.sort)), addr: a})
			}
		}
		return out
	}
	for _, c := range comps(et) {
		out = append(out, modLoc{heap: mapHeap(m) + ".val" + c.suffix, sort: arr(SInt, arr(ks, c.sort)), addr: a})
	}
	return out
}

// natCheck: the step of the induction that shows a "nat" ghost function is
// never negative, for arbitrary arguments and a recursive call that is not.
func (e *Engine) natCheck(g *GhostFn, as []TV, env *Env) {
	u := e.u
	in := &Env{e: e, st: e.entry.clone(), old: e.entry, vars: map[string]TV{}, c: env.c, pkg: g.pkg, dep: 1}
	in.st.pc = nil
	for i, p := range g.params {
		switch x := as[i].v.(type) {
		case SeqV:
			sq := SeqV{off: u.Fresh("nat$off", SInt), len: u.Fresh("nat$len", SInt), elem: x.elem}
			for _, r := range x.rows {
				sq.rows = append(sq.rows, u.Fresh("nat$row", r.sort))
			}
			in.vars[p.name] = TV{sq, nil}
		default:
			in.vars[p.name] = TV{e.freshVal(in.st, as[i].t, "nat$"+p.name), as[i].t}
		}
	}
	st := in.st
	b := e.eval(g.body, in).v.(*Term)
	dry := e.dry
	e.dry = 0
	e.oblige(st, u.Le(u.I(0), b), "ghost:"+g.name+"/nat", "never negative")
	e.dry = dry
}
