package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term      integers and booleans
//	Float      floating point
//	Str        strings
//	*Ptr       pointers, maps, channels, unsafe.Pointer (nil = (*Ptr)(nil))
//	Slice      slices
//	*Closure   functions (nil = (*Closure)(nil))
//	Iface      interfaces
//	*Agg       structs and arrays
//	Tuple      multi-values
//	*MapObj, *ChanObj, *Iter   heap-only payloads
//	Poison     value of a failed initialiser
type Value interface{}

type Poison struct{ why string }

// Float is a concrete float or the exact conversion of an integer term.
type Float struct {
	f float64
	t *Term // non-nil: float64(signed t)
	w int   // 32 or 64
}

type Str struct {
	n     int
	conc  string
	isC   bool
	terms []*Term
	alias *Ptr // pointer to first byte cell (element path) when aliasing memory
}

type Tuple []Value

type Ptr struct {
	obj  int
	path []int32
}

type Slice struct {
	arr           *Ptr // points to the array Agg
	off, len, cap int
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	// bound builtin wrappers
	builtin *ssa.Builtin
}

type Iface struct {
	typ types.Type
	val Value
}

type Agg struct {
	gen   uint64
	elems []Value
}

type MapEntry struct {
	key, val Value
	id       int
}

type MapObj struct {
	gen     uint64
	entries []MapEntry
	idx     map[string]int // concrete key -> position; rebuilt lazily
	nsym    int
	nextID  int
	kt, vt  types.Type
	typ     *types.Map
}

type ChanWaiter struct {
	gid  int
	val  Value
	sel  int // select case or -1
	tick int
}

type ChanObj struct {
	gen     uint64
	buf     []Value
	cap     int
	closed  bool
	recvq   []ChanWaiter
	sendq   []ChanWaiter
	et      types.Type
	vc      []VC // clocks of buffered values
	closeVC VC
}

type Iter struct {
	gen     uint64
	isStr   bool
	str     Str
	pos     int
	m       *Ptr
	keys    []int // remaining entry ids
	started bool
}

type Obj struct {
	gen  uint64
	root Value
	typ  types.Type
}

var nilPtr = (*Ptr)(nil)
var nilClosure = (*Closure)(nil)

func cstr(s string) Str { return Str{n: len(s), conc: s, isC: true} }

func (p *Ptr) key() string {
	if p == nil {
		return "nil"
	}
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(p.obj))
	for _, x := range p.path {
		sb.WriteByte('.')
		sb.WriteString(strconv.Itoa(int(x)))
	}
	return sb.String()
}

func (p *Ptr) elem(i int) *Ptr {
	np := make([]int32, len(p.path)+1)
	copy(np, p.path)
	np[len(p.path)] = int32(i)
	return &Ptr{obj: p.obj, path: np}
}

func ptrEq(a, b *Ptr) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.obj != b.obj || len(a.path) != len(b.path) {
		return false
	}
	for i := range a.path {
		if a.path[i] != b.path[i] {
			return false
		}
	}
	return true
}

// width of a basic integer/bool type, signedness
func basicInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return cstr("")
		case types.Float32:
			return Float{w: 32}
		case types.Float64, types.UntypedFloat:
			return Float{w: 64}
		case types.UnsafePointer, types.UntypedNil:
			return nilPtr
		case types.Complex64, types.Complex128:
			return Poison{"complex"}
		}
		w, _, ok := basicInfo(t)
		if !ok {
			panic(engErr{"zero " + t.String()})
		}
		return Const(0, w)
	case *types.Pointer, *types.Map, *types.Chan:
		return nilPtr
	case *types.Slice:
		return Slice{}
	case *types.Signature:
		return nilClosure
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := &Agg{elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			a.elems[i] = zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		if n > 1<<24 {
			panic(engErr{"array too large"})
		}
		a := &Agg{elems: make([]Value, n)}
		z := zero(u.Elem())
		for i := range a.elems {
			a.elems[i] = z // shared frozen aggregates are fine (gen 0)
		}
		return a
	case *types.Tuple:
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = zero(u.At(i).Type())
		}
		return t
	}
	panic(engErr{"zero " + t.String()})
}

func kindOf(v Value) string { return fmt.Sprintf("%T", v) }
