package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is one of *Term, SliceV, *StructV, *ArrayV, IfaceV, FuncV, TupleV, Ptr.
type Val interface{}

type SliceV struct{ ref, off, len, cap *Term }

type StructV struct {
	t *types.Struct
	f []Val
}

type ArrayV struct {
	n    int64
	elem types.Type
	comp []*Term // one Array Int X per component of elem
}

type IfaceV struct {
	tag, pay *Term
	dyn      types.Type
	val      Val
}

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	recv Val // bound method receiver (interface method value)
	t    *Term
}

type TupleV []Val

type PtrKind int

const (
	PObj   PtrKind = iota // pointer to struct/array/cell at address
	PField                // pointer to scalar field
	PElem                 // pointer to scalar element
)

type Ptr struct {
	kind PtrKind
	addr *Term // PObj, PField: base
	heap string
	ref  *Term // PElem
	idx  *Term
}

type comp struct {
	suffix string
	sort   Sort
	t      types.Type // for ranges (nil: none)
	ptr    bool       // address-like component (birth applies)
}

var opaqueTypes = map[string]bool{
	"time.Time": true, "sync.Mutex": true, "sync.RWMutex": true, "sync.WaitGroup": true, "sync.Pool": true, "sync.Once": true,
	"github.com/NVIDIA/vdisc/pkg/vdisc/types/v1.Extent_List": true, "github.com/NVIDIA/vdisc/pkg/vdisc/types/v1.ITrie_List": true, "github.com/NVIDIA/vdisc/pkg/vdisc/types/v1.Extent": true, "github.com/NVIDIA/vdisc/pkg/vdisc/types/v1.ITrie": true,
	"zombiezen.com/go/capnproto2.List": true, "zombiezen.com/go/capnproto2.Struct": true, "github.com/NVIDIA/vdisc/pkg/vdisc/types.VDisc": true, "github.com/NVIDIA/vdisc/pkg/vdisc/types/v1.VDisc": true,
	"bytes.Buffer": true, "strings.Builder": true, "regexp.Regexp": true, "reflect.Value": true, "net/http.Header": false,
	"net/http.Client": true, "net/http.Request": false,
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, nil)
	s = strings.ReplaceAll(s, "github.com/NVIDIA/vdisc/pkg/", "")
	return s
}

func isOpaque(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return opaqueTypes[n.Obj().Pkg().Path()+"."+n.Obj().Name()]
		}
	}
	return false
}

func isStruct(t types.Type) bool {
	if isOpaque(t) {
		return false
	}
	_, ok := t.Underlying().(*types.Struct)
	return ok
}
func isArray(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// isAgg: stored in memory at a derived address of its own.
func isAgg(t types.Type) bool { return isStruct(t) || isArray(t) }

// elemKey names element heaps and cells; basic types by their kind.
func elemKey(t types.Type) string {
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return b.Name()
	}
	return typeKey(t)
}

func comps(t types.Type) []comp {
	t = types.Unalias(t)
	if isOpaque(t) {
		return []comp{{"", SInt, nil, false}}
	}
	switch x := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case x.Info()&types.IsBoolean != 0:
			return []comp{{"", SBool, nil, false}}
		case x.Info()&types.IsString != 0:
			return []comp{{"", SStr, nil, false}}
		case x.Info()&types.IsInteger != 0:
			return []comp{{"", SInt, x, false}}
		default:
			return []comp{{"", SInt, nil, false}}
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return []comp{{"", SInt, nil, true}}
	case *types.Slice:
		return []comp{{".ref", SInt, nil, true}, {".off", SInt, types.Typ[types.Int], false}, {".len", SInt, types.Typ[types.Int], false}, {".cap", SInt, types.Typ[types.Int], false}}
	case *types.Interface:
		return []comp{{".tag", SInt, nil, false}, {".pay", SInt, nil, true}}
	}
	panic(unsupported("components of type " + t.String()))
}

type unsupportedErr string

func (u unsupportedErr) Error() string { return "unsupported: " + string(u) }
func unsupported(s string) error       { return unsupportedErr(s) }

func intRange(b *types.Basic) (lo, hi *big.Int) {
	one := big.NewInt(1)
	sh := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch b.Kind() {
	case types.Int8:
		return new(big.Int).Neg(sh(7)), new(big.Int).Sub(sh(7), one)
	case types.Int16:
		return new(big.Int).Neg(sh(15)), new(big.Int).Sub(sh(15), one)
	case types.Int32, types.UntypedRune:
		return new(big.Int).Neg(sh(31)), new(big.Int).Sub(sh(31), one)
	case types.Int, types.Int64, types.UntypedInt:
		return new(big.Int).Neg(sh(63)), new(big.Int).Sub(sh(63), one)
	case types.Uint8:
		return new(big.Int), new(big.Int).Sub(sh(8), one)
	case types.Uint16:
		return new(big.Int), new(big.Int).Sub(sh(16), one)
	case types.Uint32:
		return new(big.Int), new(big.Int).Sub(sh(32), one)
	case types.Uint, types.Uint64, types.Uintptr:
		return new(big.Int), new(big.Int).Sub(sh(64), one)
	}
	return nil, nil
}

func basicInt(t types.Type) *types.Basic {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	return b
}

func bitsOf(b *types.Basic) (bits uint, signed bool) {
	lo, hi := intRange(b)
	bits = uint(hi.BitLen())
	if lo.Sign() < 0 {
		return bits + 1, true
	}
	return bits, false
}

// wrap reduces a mathematical result to machine type b.
func (u *U) wrap(t *Term, b *types.Basic) *Term {
	lo, hi := intRange(b)
	if lo == nil {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	if t.isInt() {
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		d := new(big.Int).Sub(t.num, lo)
		d.Mod(d, m)
		return u.Big(d.Add(d, lo))
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	// one wrap in each direction is enough?
	if t.lo != nil && t.hi != nil {
		lo1 := new(big.Int).Sub(lo, m)
		hi1 := new(big.Int).Add(hi, m)
		if t.lo.Cmp(lo1) >= 0 && t.hi.Cmp(hi1) <= 0 {
			r := t
			if t.hi.Cmp(hi) > 0 {
				r = u.Ite(u.Lt(u.Big(hi), t), u.Sub(t, u.Big(m)), r)
			}
			if t.lo.Cmp(lo) < 0 {
				r = u.Ite(u.Lt(t, u.Big(lo)), u.Add(t, u.Big(m)), r)
			}
			if r.lo == nil || r.lo.Cmp(lo) < 0 {
				r.lo = lo
			}
			if r.hi == nil || r.hi.Cmp(hi) > 0 {
				r.hi = hi
			}
			return r
		}
	}
	if lo.Sign() == 0 {
		return u.Mod(t, u.Big(m))
	}
	return u.Add(u.Mod(u.Sub(t, u.Big(lo)), u.Big(m)), u.Big(lo))
}

func constBig(v constant.Value) *big.Int {
	v = constant.ToInt(v)
	if i, ok := constant.Int64Val(v); ok {
		return big.NewInt(i)
	}
	b, ok := new(big.Int).SetString(v.ExactString(), 10)
	if !ok {
		panic(unsupported("constant " + v.String()))
	}
	return b
}

func (p Ptr) String() string { return fmt.Sprintf("Ptr(%d)", p.kind) }
