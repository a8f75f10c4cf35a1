package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a register or memory slot.  x == nil: concrete scalar u.
// x is *Term: symbolic scalar.  Otherwise x holds the non-scalar value.
type Value struct {
	u uint64
	x any
}

type Box struct {
	v  Value
	nm string
}

type StructV struct{ f []Value }

// GArr: array of non-scalar elements; elements beyond len(e) are zero values.
type GArr struct {
	n  Value // length (64-bit scalar, possibly symbolic)
	e  []Value
	et types.Type
}

type Ptr struct {
	c   any // *Box, *StructV, *GArr, *SArr
	i   int
	idx Value // for arrays
}

type SliceV struct {
	arr           any // nil for the nil slice; *GArr or *SArr
	off, len, cap Value
}

type StrV struct {
	conc bool
	s    string
	sn   *snap
	off  Value
	n    Value
}

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn   *ssa.Function
	bind []Value
	nat  func(p *Path, args []Value) Value // native bound function
}

type MapV struct {
	keys, vals []Value
	idx        map[string]int // concrete key -> position
	live       int
	dead       []bool
	symKeys    bool
	kt, vt     types.Type
}

type TupleV []Value

var (
	nilPtr   = Value{x: (*Ptr)(nil)}
	nilIface = Value{x: (*IfaceV)(nil)}
	nilFunc  = Value{x: (*FuncV)(nil)}
	nilMap   = Value{x: (*MapV)(nil)}
	nilChan  = Value{x: (*ChanV)(nil)}
	nilSlice = Value{x: &SliceV{}}
	emptyStr = Value{x: &StrV{conc: true}}
)

func cu(k uint64) Value { return Value{u: k} }
func ci(k int) Value    { return Value{u: uint64(int64(k))} }
func cb(b bool) Value   { return Value{u: b2u(b)} }
func str(s string) Value {
	return Value{x: &StrV{conc: true, s: s}}
}

func fromT(t *Term) Value {
	if t.op == OConst {
		return Value{u: t.k}
	}
	return Value{x: t}
}

func (v Value) term(w uint8) *Term {
	if v.x == nil {
		return bv(w, v.u)
	}
	return v.x.(*Term)
}

func (v Value) conc() bool { return v.x == nil }

func (v Value) ptr() *Ptr      { return v.x.(*Ptr) }
func (v Value) str() *StrV     { return v.x.(*StrV) }
func (v Value) sl() *SliceV    { return v.x.(*SliceV) }
func (v Value) ifc() *IfaceV   { return v.x.(*IfaceV) }
func (v Value) i() int         { return int(int64(v.u)) }
func (v Value) isNilPtr() bool { return v.x.(*Ptr) == nil }

// scalar width of a basic type; ok=false if not scalar
func scalarW(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// SArr is used for arrays of 8..64-bit integers.
func sarrElem(t types.Type) (uint8, bool) {
	w, ok := scalarW(t)
	if !ok || w == 0 || isFloat(t) {
		return 0, false
	}
	return w, true
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Kind() == types.UnsafePointer {
			return nilPtr
		}
		if u.Kind() == types.UntypedNil {
			return nilPtr
		}
		if u.Info()&types.IsComplex != 0 {
			unsup("complex numbers")
		}
		return Value{}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return nilSlice
	case *types.Map:
		return nilMap
	case *types.Chan:
		return nilChan
	case *types.Signature:
		return nilFunc
	case *types.Interface:
		return nilIface
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = zero(u.Field(i).Type())
		}
		return Value{x: s}
	case *types.Array:
		return Value{x: newArray(u.Elem(), ci(int(u.Len())))}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return Value{x: r}
	}
	unsup(fmt.Sprintf("zero value of %s", t))
	return Value{}
}

func newArray(et types.Type, n Value) any {
	if w, ok := sarrElem(et); ok {
		return newSArr(w)
	}
	return &GArr{n: n, et: et}
}

func copyVal(v Value) Value {
	switch x := v.x.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, f := range x.f {
			n.f[i] = copyVal(f)
		}
		return Value{x: n}
	case *GArr:
		n := &GArr{n: x.n, et: x.et, e: make([]Value, len(x.e))}
		for i, f := range x.e {
			n.e[i] = copyVal(f)
		}
		return Value{x: n}
	case *SArr:
		return Value{x: x.clone()}
	}
	return v
}

// assign stores v into slot, keeping the identity of aggregates.
func assign(slot *Value, v Value) {
	switch x := v.x.(type) {
	case *StructV:
		if d, ok := slot.x.(*StructV); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range x.f {
				assign(&d.f[i], x.f[i])
			}
			return
		}
		*slot = copyVal(v)
	case *GArr:
		if d, ok := slot.x.(*GArr); ok {
			if d == x {
				return
			}
			n := max(len(d.e), len(x.e))
			for i := 0; i < n; i++ {
				assign(d.at(i), *x.at(i))
			}
			return
		}
		*slot = copyVal(v)
	case *SArr:
		if d, ok := slot.x.(*SArr); ok {
			d.become(x)
			return
		}
		*slot = copyVal(v)
	default:
		*slot = v
	}
}

func (g *GArr) at(i int) *Value {
	for len(g.e) <= i {
		g.e = append(g.e, zero(g.et))
	}
	return &g.e[i]
}

type unsupported struct{ msg string }

func unsup(msg string) { panic(unsupported{msg}) }
