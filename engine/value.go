package main

// Runtime values of the symbolic interpreter.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of: *Term (bool/int/float), Ptr, *SymPtr, StrV, SliceV,
// IfaceV, *FuncV, MapV, ChanV, *Agg (struct, array, tuple, complex),
// TypeV (reflect types), IterV.
type Value interface{}

type Ptr struct {
	o   int32 // object id, 0 = nil
	off int32 // cell offset
}

// SymPtr points into an array at a symbolic index.
type SymPtr struct {
	o      int32
	base   int32 // cell offset of element 0
	stride int32
	n      int32 // number of elements
	idx    *Term // 64 bit, known < n under the path condition
	add    int32 // extra cell offset inside the element
}

// StrV is a string of concrete length; b == nil means fully concrete.
type StrV struct {
	s string
	b []*Term
}

func (s StrV) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type SliceV struct {
	o    int32 // 0 = nil slice
	off  int32 // cell offset of element 0
	len  int32
	cap  int32
	cell int32 // cells per element
}

type IfaceV struct {
	t types.Type // canonical dynamic type, nil for nil interface
	v Value
}

type FuncV struct {
	fn *ssa.Function
	b  []Value
	bi *ssa.Builtin
}

type MapV struct{ o int32 }
type ChanV struct{ o int32 }
type IterV struct{ o int32 }
type TypeV struct{ t types.Type }

type Agg struct{ c []Value }   // flattened struct/array/complex
type Tuple struct{ c []Value } // multiple results

type Obj struct {
	own    uint64 // COW owner token
	cells  []Value
	shared bool
	ronly  bool
	uninit bool // global whose initialiser did not run
	// exactly one of the following may be set
	m    *MapObj
	ch   *ChanObj
	it   *IterObj
	desc string
	elem types.Type // element type (for diagnostics)
}

type MapEnt struct {
	k, v Value
	n    int32 // insertion serial
}

type MapObj struct {
	kt, vt types.Type
	ents   []MapEnt
	serial int32
}

type ChanObj struct {
	cap    int32
	buf    []Value
	closed bool
	zero   Value
	// unbuffered rendezvous is resolved by the scheduler
}

type IterObj struct {
	m       int32
	visited []int32 // serials already produced
	limit   int32   // serials below this are candidates
	str     *StrV
	pos     int32
}

type layoutT struct {
	n      int32
	fields []int32 // struct field offsets
}

type Layouts struct {
	m typeutil.Map
}

func (ly *Layouts) of(t types.Type) *layoutT {
	if v := ly.m.At(t); v != nil {
		return v.(*layoutT)
	}
	l := &layoutT{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l.fields = append(l.fields, l.n)
			l.n += ly.of(u.Field(i).Type()).n
		}
	case *types.Array:
		n := ly.of(u.Elem()).n * int32(u.Len())
		l.n = n
	case *types.Basic:
		l.n = 1
		if u.Kind() == types.Complex64 || u.Kind() == types.Complex128 {
			l.n = 2
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			l.fields = append(l.fields, l.n)
			l.n += ly.of(u.At(i).Type()).n
		}
	default:
		l.n = 1
	}
	ly.m.Set(t, l)
	return l
}

func isAgg(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	case *types.Basic:
		return u.Kind() == types.Complex64 || u.Kind() == types.Complex128
	}
	return false
}

type intKind struct {
	w      uint8
	signed bool
	float  bool
	boolk  bool
	ok     bool
}

func basicKind(t types.Type) intKind {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return intKind{1, false, false, true, true}
	case types.Int8:
		return intKind{8, true, false, false, true}
	case types.Int16:
		return intKind{16, true, false, false, true}
	case types.Int32, types.UntypedRune:
		return intKind{32, true, false, false, true}
	case types.Int64, types.Int, types.UntypedInt:
		return intKind{64, true, false, false, true}
	case types.Uint8:
		return intKind{8, false, false, false, true}
	case types.Uint16:
		return intKind{16, false, false, false, true}
	case types.Uint32:
		return intKind{32, false, false, false, true}
	case types.Uint64, types.Uint, types.Uintptr:
		return intKind{64, false, false, false, true}
	case types.Float32:
		return intKind{32, true, true, false, true}
	case types.Float64, types.UntypedFloat:
		return intKind{64, true, true, false, true}
	}
	return intKind{}
}

func (e *Engine) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		z := e.zeroCells(u.Elem(), nil)
		for i := 0; i < n; i++ {
			out = append(out, z...)
		}
		return out
	case *types.Basic:
		if u.Kind() == types.Complex64 {
			return append(out, e.c.F32(0), e.c.F32(0))
		}
		if u.Kind() == types.Complex128 {
			return append(out, e.c.F64(0), e.c.F64(0))
		}
	}
	return append(out, e.zeroScalar(t))
}

func (e *Engine) zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return StrV{}
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		}
		k := basicKind(t)
		if !k.ok {
			panic(fmt.Sprintf("zero of %v", t))
		}
		if k.boolk {
			return e.c.False
		}
		if k.float {
			return e.c.FP(k.w, 0)
		}
		return e.c.BV(k.w, 0)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return SliceV{cell: e.ly.of(u.Elem()).n}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	}
	panic(fmt.Sprintf("zero of %v", t))
}

func (e *Engine) zero(t types.Type) Value {
	if isAgg(t) {
		return &Agg{e.zeroCells(t, nil)}
	}
	if tt, ok := t.(*types.Tuple); ok {
		a := &Tuple{}
		for i := 0; i < tt.Len(); i++ {
			a.c = append(a.c, e.zero(tt.At(i).Type()))
		}
		return a
	}
	return e.zeroScalar(t)
}

// canonical representative of a type
func (e *Engine) canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	t = types.Unalias(t)
	if v := e.types.At(t); v != nil {
		return v.(types.Type)
	}
	e.types.Set(t, t)
	return t
}

func (e *Engine) typeID(t types.Type) int {
	t = e.canon(t)
	if id, ok := e.typeIDs[t]; ok {
		return id
	}
	id := len(e.typeIDs) + 1
	e.typeIDs[t] = id
	return id
}

func strTerm(e *Engine, s StrV, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return e.c.BV(8, uint64(s.s[i]))
}

// mkStr normalises a byte-term slice into a StrV.
func mkStr(b []*Term) StrV {
	for _, t := range b {
		if !t.IsConst() {
			return StrV{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.v))
	}
	return StrV{s: sb.String()}
}

func (e *Engine) strBytes(s StrV) []*Term {
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = e.c.BV(8, uint64(s.s[i]))
	}
	return out
}

func (e *Engine) show(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<unset>"
	case *Term:
		return x.String()
	case StrV:
		if x.b == nil {
			return fmt.Sprintf("%q", x.s)
		}
		return fmt.Sprintf("str[%d]", len(x.b))
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("(%v)%s", x.t, e.show(x.v))
	case *Agg:
		var p []string
		for _, c := range x.c {
			p = append(p, e.show(c))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *FuncV:
		if x == nil {
			return "nilfunc"
		}
		return "func " + x.fn.String()
	}
	return fmt.Sprintf("%T%+v", v, v)
}

func hasPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPointers(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPointers(u.Elem())
	}
	return true
}
