package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// binop returns nil when a runtime panic was raised.
func (m *Machine) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			if u, isU := y.(UPtr); isU {
				return m.uptrOp(op, u, a, true)
			}
			m.unsupported("binop %T %T", x, y)
		}
		return m.intOp(op, a, b, xt, yt)
	case UPtr:
		if b, ok := y.(*Term); ok {
			return m.uptrOp(op, a, b, false)
		}
		if b, ok := y.(UPtr); ok {
			switch op {
			case token.EQL:
				return Bool(ptrEq(a.p, b.p))
			case token.NEQ:
				return Bool(!ptrEq(a.p, b.p))
			}
		}
		m.unsupported("uintptr arithmetic")
	case Float:
		return m.floatOp(op, a, y.(Float))
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			if b.n == 0 {
				return a
			}
			if a.n == 0 {
				return b
			}
			if a.isC && b.isC {
				return cstr(a.conc + b.conc)
			}
			return mkStr(append(append(make([]*Term, 0, a.n+b.n), m.strTerms(a)...), m.strTerms(b)...))
		case token.EQL:
			return m.strEq(a, b)
		case token.NEQ:
			return Not(m.strEq(a, b))
		case token.LSS:
			return m.strLess(a, b)
		case token.GTR:
			return m.strLess(b, a)
		case token.LEQ:
			return Not(m.strLess(b, a))
		case token.GEQ:
			return Not(m.strLess(a, b))
		}
	}
	switch op {
	case token.EQL:
		return m.equal(x, y)
	case token.NEQ:
		return Not(m.equal(x, y))
	}
	m.unsupported("binop %s on %T", op, x)
	return nil
}

func (m *Machine) uptrOp(op token.Token, u UPtr, t *Term, swapped bool) Value {
	if t.IsConst() && t.val == 0 {
		switch op {
		case token.EQL:
			return Bool(u.p == nil)
		case token.NEQ:
			return Bool(u.p != nil)
		case token.ADD, token.OR, token.XOR:
			return u
		}
	}
	m.unsupported("uintptr arithmetic %s", op)
	return nil
}

func (m *Machine) intOp(op token.Token, a, b *Term, xt, yt types.Type) Value {
	_, signed, ok := basicInfo(xt)
	if !ok {
		if _, isP := xt.Underlying().(*types.Basic); !isP {
			m.unsupported("int op on %s", xt)
		}
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.QUO, token.REM:
		if m.decide(Eq(b, Const(0, b.w))) {
			m.rtPanic("integer divide by zero")
			return nil
		}
		if signed {
			if op == token.QUO {
				return SDiv(a, b)
			}
			return SRem(a, b)
		}
		if op == token.QUO {
			return UDiv(a, b)
		}
		return URem(a, b)
	case token.AND:
		return BAnd(a, b)
	case token.OR:
		return BOr(a, b)
	case token.XOR:
		return BXor(a, b)
	case token.AND_NOT:
		return BAnd(a, BNot(b))
	case token.SHL, token.SHR:
		_, ys, _ := basicInfo(yt)
		if ys && b.smin < 0 {
			if m.decide(Slt(b, Const(0, b.w))) {
				m.rtPanic("negative shift amount")
				return nil
			}
		}
		// bring the amount to a's width, saturating
		var amt *Term
		if b.w <= a.w {
			amt = ZExt(b, a.w)
		} else {
			big := Not(Ult(b, Const(uint64(a.w), b.w)))
			amt = Ite(big, Const(uint64(a.w), a.w), Extract(a.w-1, 0, b))
		}
		if op == token.SHL {
			return Shl(a, amt)
		}
		if signed {
			return AShr(a, amt)
		}
		return LShr(a, amt)
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Not(Eq(a, b))
	case token.LSS:
		if signed {
			return Slt(a, b)
		}
		return Ult(a, b)
	case token.LEQ:
		if signed {
			return Sle(a, b)
		}
		return Ule(a, b)
	case token.GTR:
		if signed {
			return Slt(b, a)
		}
		return Ult(b, a)
	case token.GEQ:
		if signed {
			return Sle(b, a)
		}
		return Ule(b, a)
	case token.LAND:
		return And(a, b)
	case token.LOR:
		return Or(a, b)
	}
	m.unsupported("int op %s", op)
	return nil
}

func (m *Machine) floatOp(op token.Token, a, b Float) Value {
	if a.t != nil || b.t != nil {
		isZero := func(f Float) bool { return f.t == nil && f.f == 0 }
		isInt := func(f Float) (*Term, bool) {
			if f.t != nil {
				return f.t, true
			}
			if f.f == math.Trunc(f.f) && math.Abs(f.f) < 1<<52 {
				return Const(uint64(int64(f.f)), 64), true
			}
			return nil, false
		}
		small := func(t *Term) bool { return t.smin > -(1<<52) && t.smax < 1<<52 }
		switch op {
		case token.ADD:
			if isZero(b) {
				return a
			}
			if isZero(a) {
				return b
			}
		case token.QUO:
			if a.t != nil && b.t == nil && b.f == 1 {
				return a
			}
		case token.MUL:
			if b.t == nil && b.f == 1 {
				return a
			}
		}
		x, ok1 := isInt(a)
		y, ok2 := isInt(b)
		if ok1 && ok2 && small(x) && small(y) {
			switch op {
			case token.EQL:
				return Eq(x, y)
			case token.NEQ:
				return Not(Eq(x, y))
			case token.LSS:
				return Slt(x, y)
			case token.LEQ:
				return Sle(x, y)
			case token.GTR:
				return Slt(y, x)
			case token.GEQ:
				return Sle(y, x)
			case token.ADD:
				r := Add(x, y)
				if small(r) {
					return Float{t: r, w: a.w}
				}
			case token.SUB:
				r := Sub(x, y)
				if small(r) {
					return Float{t: r, w: a.w}
				}
			case token.MUL:
				r := Mul(x, y)
				if small(r) {
					return Float{t: r, w: a.w}
				}
			}
		}
		// fall back: concretise
		if a.t != nil {
			a = Float{f: float64(m.concInt(a.t)), w: a.w}
		}
		if b.t != nil {
			b = Float{f: float64(m.concInt(b.t)), w: b.w}
		}
	}
	var r float64
	switch op {
	case token.ADD:
		r = a.f + b.f
	case token.SUB:
		r = a.f - b.f
	case token.MUL:
		r = a.f * b.f
	case token.QUO:
		r = a.f / b.f
	case token.EQL:
		return Bool(a.f == b.f)
	case token.NEQ:
		return Bool(a.f != b.f)
	case token.LSS:
		return Bool(a.f < b.f)
	case token.LEQ:
		return Bool(a.f <= b.f)
	case token.GTR:
		return Bool(a.f > b.f)
	case token.GEQ:
		return Bool(a.f >= b.f)
	default:
		m.unsupported("float op %s", op)
	}
	if a.w == 32 {
		r = float64(float32(r))
	}
	return Float{f: r, w: a.w}
}

func (m *Machine) strEq(a, b Str) *Term {
	if a.n != b.n {
		return tFalse
	}
	if a.isC && b.isC {
		return Bool(a.conc == b.conc)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	r := tTrue
	for i := range x {
		r = And(r, Eq(x[i], y[i]))
		if r == tFalse {
			return r
		}
	}
	return r
}

func (m *Machine) strLess(a, b Str) *Term {
	if a.isC && b.isC {
		return Bool(a.conc < b.conc)
	}
	x, y := m.strTerms(a), m.strTerms(b)
	n := min(len(x), len(y))
	r := Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = Or(Ult(x[i], y[i]), And(Eq(x[i], y[i]), r))
	}
	return r
}

// equal implements == on any comparable values.
func (m *Machine) equal(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok || b.w != a.w {
			m.unsupported("comparison %T %T", x, y)
		}
		return Eq(a, b)
	case Str:
		return m.strEq(a, y.(Str))
	case Float:
		return m.floatOp(token.EQL, a, y.(Float)).(*Term)
	case *Ptr:
		b, ok := y.(*Ptr)
		if !ok {
			if i, isI := y.(Iface); isI && i.typ == nil {
				return Bool(a == nil)
			}
			m.unsupported("comparison %T %T", x, y)
		}
		return Bool(ptrEq(a, b))
	case UPtr:
		if b, ok := y.(UPtr); ok {
			return Bool(ptrEq(a.p, b.p))
		}
	case Slice:
		b := y.(Slice)
		if a.arr == nil || b.arr == nil {
			return Bool(a.arr == nil && b.arr == nil)
		}
	case *Closure:
		b := y.(*Closure)
		if a == nil || b == nil {
			return Bool(a == nil && b == nil)
		}
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			m.unsupported("comparison %T %T", x, y)
		}
		if a.typ == nil || b.typ == nil {
			return Bool(a.typ == nil && b.typ == nil)
		}
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return m.equal(a.val, b.val)
	case *Agg:
		b := y.(*Agg)
		r := tTrue
		if len(a.elems) != len(b.elems) {
			m.unsupported("aggregate comparison")
		}
		for i := range a.elems {
			r = And(r, m.equal(a.elems[i], b.elems[i]))
			if r == tFalse {
				return r
			}
		}
		return r
	case Poison:
		m.unsupported("comparison of poisoned value: %s", a.why)
	}
	if p, ok := y.(Poison); ok {
		m.unsupported("comparison of poisoned value: %s", p.why)
	}
	m.unsupported("comparison %T %T", x, y)
	return nil
}

func (m *Machine) unopScalar(op token.Token, v Value, t types.Type) Value {
	switch op {
	case token.NOT:
		return Not(v.(*Term))
	case token.XOR:
		return BNot(v.(*Term))
	case token.SUB:
		return Neg(v.(*Term))
	}
	m.unsupported("unop %s", op)
	return nil
}

func (m *Machine) unop(fr *Frame, x *ssa.UnOp) {
	v := m.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*Ptr)
		if !ok {
			m.unsupported("deref of %T", v)
		}
		if p == nil {
			m.nilDeref()
			return
		}
		m.access(p, false)
		t := x.Type()
		r := m.load(p, t)
		m.set(fr, x, r)
		m.next()
		return
	case token.ARROW:
		m.chanRecv(fr, x)
		return
	case token.SUB:
		if f, ok := v.(Float); ok {
			if f.t != nil {
				m.set(fr, x, Float{t: Neg(f.t), w: f.w})
			} else {
				m.set(fr, x, Float{f: -f.f, w: f.w})
			}
			m.next()
			return
		}
	}
	m.set(fr, x, m.unopScalar(x.Op, v, x.X.Type()))
	m.next()
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	if tp, ok := to.(*types.TypeParam); ok {
		m.unsupported("conversion to type parameter %s", tp)
	}
	tu, fu := to.Underlying(), from.Underlying()
	switch a := v.(type) {
	case *Term:
		if w, _, ok := basicInfo(to); ok {
			_, fs, _ := basicInfo(from)
			return intConv(a, w, fs)
		}
		if isFloatT(to) {
			w := 64
			if tu.(*types.Basic).Kind() == types.Float32 {
				w = 32
			}
			_, fs, _ := basicInfo(from)
			if a.IsConst() {
				var f float64
				if fs {
					f = float64(a.Int())
				} else {
					f = float64(a.val)
				}
				if w == 32 {
					f = float64(float32(f))
				}
				return Float{f: f, w: w}
			}
			t := intConv(a, 64, fs)
			if w == 64 && t.smin > -(1<<52) && t.smax < 1<<52 {
				return Float{t: t, w: 64}
			}
			if w == 64 && fs {
				if m.decide(And(Slt(Const(1<<63|1<<63-1<<52, 64), t), Slt(t, Const(1<<52, 64)))) {
					return Float{t: t, w: 64}
				}
			}
			m.unsupported("symbolic integer to float conversion")
		}
		if isStringT(to) { // rune to string
			if !a.IsConst() {
				if m.decide(Ult(a, Const(0x80, a.w))) {
					return mkStr([]*Term{Extract(7, 0, a)})
				}
				m.unsupported("symbolic rune to string")
			}
			return cstr(string(rune(a.Int())))
		}
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if a.IsConst() && a.val == 0 {
				return nilPtr
			}
		}
		m.unsupported("conversion of integer to %s", to)
	case Float:
		if isFloatT(to) {
			if tu.(*types.Basic).Kind() == types.Float32 {
				if a.t != nil {
					m.unsupported("symbolic float32")
				}
				return Float{f: float64(float32(a.f)), w: 32}
			}
			return Float{f: a.f, t: a.t, w: 64}
		}
		w, s, ok := basicInfo(to)
		if !ok {
			m.unsupported("float conversion to %s", to)
		}
		if a.t != nil {
			return intConv(a.t, w, true)
		}
		if s {
			return Const(uint64(int64(a.f)), w)
		}
		return Const(uint64(a.f), w)
	case Str:
		if isStringT(to) {
			return a
		}
		if sl, ok := tu.(*types.Slice); ok {
			w, _, _ := basicInfo(sl.Elem())
			if w == 8 {
				if a.n == 0 {
					return Slice{arr: m.alloc(&Agg{gen: m.st.gen}, types.NewArray(sl.Elem(), 0))}
				}
				ts := m.strTerms(a)
				es := make([]Value, len(ts))
				for i, t := range ts {
					es[i] = t
				}
				return m.newSlice(es, sl.Elem())
			}
			// []rune
			s, ok := m.concStr(a)
			if !ok {
				m.unsupported("[]rune of symbolic string")
			}
			var es []Value
			for _, r := range s {
				es = append(es, Const(uint64(r), 32))
			}
			return m.newSlice(es, sl.Elem())
		}
	case Slice:
		if isStringT(to) {
			sl := fu.(*types.Slice)
			if w, _, _ := basicInfo(sl.Elem()); w == 8 {
				return mkStr(m.sliceBytes(a))
			}
			var sb strings.Builder
			for _, t := range m.sliceBytes(a) {
				if !t.IsConst() {
					m.unsupported("string of symbolic runes")
				}
				sb.WriteRune(rune(t.Int()))
			}
			return cstr(sb.String())
		}
		if _, ok := tu.(*types.Slice); ok {
			return a
		}
		if at, ok := tu.(*types.Array); ok {
			n := int(at.Len())
			if a.len < n {
				m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array of length %d", a.len, n))
				panic(engErr{"slice to array panic"})
			}
			return &Agg{elems: m.sliceElems(Slice{arr: a.arr, off: a.off, len: n})}
		}
	case *Ptr:
		if w, _, ok := basicInfo(to); ok && w == 64 {
			return UPtr{a}
		}
		return a
	case UPtr:
		if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return a.p
		}
		if w, _, ok := basicInfo(to); ok && w == 64 {
			return a
		}
		m.unsupported("uintptr conversion to %s", to)
	}
	if types.Identical(tu, fu) {
		return v
	}
	m.unsupported("conversion %s -> %s (%T)", from, to, v)
	return nil
}

func intConv(a *Term, w uint8, fromSigned bool) *Term {
	if a.w == 0 {
		return a
	}
	switch {
	case w == a.w:
		return a
	case w < a.w:
		return Extract(w-1, 0, a)
	case fromSigned:
		return SExt(a, w)
	default:
		return ZExt(a, w)
	}
}

// checkIndex decides 0 <= i < n; returns false after raising the panic.
func (m *Machine) checkIndex(i *Term, n int, signed bool) bool {
	i = intConv(i, 64, signed)
	ok := Ult(i, Const(uint64(n), 64))
	if m.decide(ok) {
		return true
	}
	txt := "symbolic"
	if i.IsConst() {
		txt = fmt.Sprint(i.Int())
	}
	m.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", txt, n))
	return false
}

func isSigned(t types.Type) bool { _, s, _ := basicInfo(t); return s }

func (m *Machine) indexAddr(fr *Frame, x *ssa.IndexAddr) {
	base := m.val(fr, x.X)
	i := intConv(m.val(fr, x.Index).(*Term), 64, isSigned(x.Index.Type()))
	switch b := base.(type) {
	case Slice:
		if !m.checkIndex(i, b.len, isSigned(x.Index.Type())) {
			return
		}
		if !i.IsConst() && onlyLoaded(x) {
			m.symElem(x, b.arr, b.off, b.len, i)
			return
		}
		k := int(m.concInt(i))
		m.set(fr, x, b.arr.elem(b.off+k))
	case *Ptr:
		if b == nil {
			m.nilDeref()
			return
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if !m.checkIndex(i, n, isSigned(x.Index.Type())) {
			return
		}
		if !i.IsConst() && onlyLoaded(x) {
			m.symElem(x, b, 0, n, i)
			return
		}
		k := int(m.concInt(i))
		m.set(fr, x, b.elem(k))
	default:
		m.unsupported("index of %T", base)
	}
	m.next()
}

// onlyLoaded: every use of the address is a plain load.
func onlyLoaded(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			if _, d := r.(*ssa.DebugRef); d {
				continue
			}
			return false
		}
	}
	_, _, ok := basicInfo(x.Type().Underlying().(*types.Pointer).Elem())
	return ok
}

// symElem builds a temporary cell holding arr[off+i] as an ite chain.
func (m *Machine) symElem(x *ssa.IndexAddr, arr *Ptr, off, n int, i *Term) {
	if n > 4096 {
		m.unsupported("symbolic index into %d elements", n)
	}
	m.accessRange(arr, off, n, false)
	a, ok := m.loadRaw(arr).(*Agg)
	if !ok {
		m.unsupported("symbolic index base")
	}
	t := m.iteChain(a.elems[off:off+n], i)
	m.set(nil, x, m.alloc(t, x.Type().Underlying().(*types.Pointer).Elem()))
	m.next()
}

func (m *Machine) iteChain(es []Value, i *Term) *Term {
	if t := affineTable(es, i); t != nil {
		return t
	}
	var r *Term
	for k := len(es) - 1; k >= 0; k-- {
		e, ok := es[k].(*Term)
		if !ok {
			m.unsupported("symbolic index over %T", es[k])
		}
		if uint64(k) > i.umax && r != nil || uint64(k) < i.umin && r != nil {
			continue
		}
		if uint64(k) > i.umax || uint64(k) < i.umin {
			continue
		}
		if r == nil {
			r = e
			continue
		}
		r = Ite(Eq(i, Const(uint64(k), i.w)), e, r)
	}
	if r == nil {
		m.unsupported("empty symbolic index")
	}
	return r
}

// affineTable encodes a constant table as one expression per run of equal or
// consecutive entries, or returns nil.
func affineTable(es []Value, i *Term) *Term {
	if len(es) < 16 {
		return nil
	}
	w := uint8(0)
	v := make([]uint64, len(es))
	for k, e := range es {
		t, ok := e.(*Term)
		if !ok || !t.IsConst() || t.w == 0 || k > 0 && t.w != w {
			return nil
		}
		v[k], w = t.val, t.w
	}
	lo, hi := i.umin, i.umax
	if hi >= uint64(len(v)) {
		hi = uint64(len(v) - 1)
	}
	if lo > hi {
		return nil
	}
	type run struct {
		end    uint64
		stride uint64
	}
	var runs []run
	for k := lo; k <= hi; {
		e, st := k, uint64(0)
		if k < hi {
			st = v[k+1] - v[k]
			if st == 0 || st == 1 {
				for e = k + 1; e < hi && v[e+1]-v[e] == st; e++ {
				}
			} else {
				st = 0
			}
		}
		runs = append(runs, run{e, st})
		k = e + 1
	}
	if len(runs) > int(hi-lo+1)/2 {
		return nil
	}
	var r *Term
	start := func(k int) uint64 {
		if k == 0 {
			return lo
		}
		return runs[k-1].end + 1
	}
	for k := len(runs) - 1; k >= 0; k-- {
		s := start(k)
		e := Const(v[s], w)
		if runs[k].stride == 1 {
			e = Add(intConv(i, w, false), Const(v[s]-s, w))
		}
		if r == nil {
			r = e
		} else {
			r = Ite(Ule(i, Const(runs[k].end, i.w)), e, r)
		}
	}
	return r
}

func (m *Machine) index(fr *Frame, x *ssa.Index) {
	base := m.val(fr, x.X)
	i := intConv(m.val(fr, x.Index).(*Term), 64, isSigned(x.Index.Type()))
	switch b := base.(type) {
	case Str:
		m.strIndex(fr, x, b, i, isSigned(x.Index.Type()))
	case *Agg:
		if !m.checkIndex(i, len(b.elems), isSigned(x.Index.Type())) {
			return
		}
		if i.IsConst() {
			m.set(fr, x, b.elems[i.val])
		} else if _, ok := b.elems[0].(*Term); ok {
			m.set(fr, x, m.iteChain(b.elems, intConv(i, 64, isSigned(x.Index.Type()))))
		} else {
			m.set(fr, x, b.elems[m.concInt(i)])
		}
		m.next()
	default:
		m.unsupported("index of %T", base)
	}
}

func (m *Machine) strIndex(fr *Frame, x ssa.Value, s Str, i *Term, signed bool) {
	if !m.checkIndex(i, s.n, signed) {
		return
	}
	if i.IsConst() {
		m.set(fr, x, m.strByte(s, int(i.val)))
	} else {
		ts := m.strTerms(s)
		es := make([]Value, len(ts))
		for k, t := range ts {
			es[k] = t
		}
		m.set(fr, x, m.iteChain(es, intConv(i, 64, signed)))
	}
	m.next()
}

// ---- slicing ----

func (m *Machine) sliceOp(fr *Frame, x *ssa.Slice) {
	base := m.val(fr, x.X)
	var lo, hi, mx *Term
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return intConv(m.val(fr, v).(*Term), 64, isSigned(v.Type()))
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	var n, c int
	var s Slice
	switch b := base.(type) {
	case Str:
		n, c = b.n, b.n
	case Slice:
		s, n, c = b, b.len, b.cap
	case *Ptr:
		if b == nil {
			m.nilDeref()
			return
		}
		n = int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		c = n
		s = Slice{arr: b, len: n, cap: n}
	default:
		m.unsupported("slice of %T", base)
	}
	if lo == nil {
		lo = Const(0, 64)
	}
	if hi == nil {
		hi = Const(uint64(n), 64)
	}
	limit := Const(uint64(c), 64)
	if mx != nil {
		if !m.decide(Ule(mx, limit)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [::%s] with capacity %d", mx, c))
			return
		}
		limit = mx
	}
	if !m.decide(Ule(hi, limit)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:%s] with capacity %s", hi, limit))
		return
	}
	if !m.decide(Ule(lo, hi)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s]", lo, hi))
		return
	}
	l, h := int(m.concInt(lo)), int(m.concInt(hi))
	if st, ok := base.(Str); ok {
		m.set(fr, x, m.subStr(st, l, h))
		m.next()
		return
	}
	k := c
	if mx != nil {
		k = int(m.concInt(mx))
	}
	if s.arr == nil {
		m.set(fr, x, Slice{})
	} else {
		m.set(fr, x, Slice{arr: s.arr, off: s.off + l, len: h - l, cap: k - l})
	}
	m.next()
}

func (m *Machine) subStr(s Str, l, h int) Str {
	if l == 0 && h == s.n {
		return s
	}
	if s.isC {
		return cstr(s.conc[l:h])
	}
	if s.terms != nil {
		return mkStr(s.terms[l:h])
	}
	if l == h {
		return cstr("")
	}
	p := s.alias
	k := len(p.path) - 1
	np := &Ptr{obj: p.obj, path: append(append(make([]int32, 0, k+1), p.path[:k]...), p.path[k]+int32(l))}
	return Str{n: h - l, alias: np}
}

// allocCheck reports allocations of more bytes than the harness allows. Of
// several failing sizes a moderate one is preferred, for the native replay.
func (m *Machine) allocCheck(n *Term, size int64) {
	big := int64(m.run.allocLimit)
	if big <= 0 {
		return
	}
	k := uint64(big / max(size, 1))
	if m.decide(Ule(n, Const(k, 64))) {
		return
	}
	if m.decide(Ult(Const(8*k+8, 64), n)) {
		m.run.failure(m, "alloc", fmt.Sprintf("allocation of more than %d bytes%s (far more)", 8*big, m.where()), m.st.model)
	} else {
		m.run.failure(m, "alloc", fmt.Sprintf("allocation of more than %d bytes%s", big, m.where()), m.st.model)
	}
	panic(pathEnd{"alloc"})
}

func (m *Machine) makeSlice(fr *Frame, x *ssa.MakeSlice) {
	et := x.Type().Underlying().(*types.Slice).Elem()
	lt := intConv(m.val(fr, x.Len).(*Term), 64, isSigned(x.Len.Type()))
	ct := intConv(m.val(fr, x.Cap).(*Term), 64, isSigned(x.Cap.Type()))
	// real limits: anything beyond 2^47 elements panics at once
	lim := Const(1<<47, 64)
	if !m.decide(Ult(lt, lim)) {
		m.rtPanic("makeslice: len out of range")
		return
	}
	if !m.decide(And(Ult(ct, lim), Ule(lt, ct))) {
		m.rtPanic("makeslice: cap out of range")
		return
	}
	m.allocCheck(ct, stdSizes.Sizeof(et))
	if !ct.IsConst() && m.decide(Ult(Const(1<<16, 64), ct)) {
		m.unsupported("allocation of an input-dependent size above %d elements", 1<<16)
	}
	n, c := int(m.concInt(lt)), int(m.concInt(ct))
	if c > 1<<22 {
		m.unsupported("allocation of more than %d elements", 1<<22)
	}
	es := make([]Value, c)
	z := zero(et)
	for i := range es {
		es[i] = z
	}
	s := m.newSlice(es, et)
	s.len = n
	m.set(fr, x, s)
	m.next()
}

// ---- maps ----

func (m *Machine) concKey(k Value) (string, bool) {
	switch a := k.(type) {
	case *Term:
		if a.IsConst() {
			return fmt.Sprintf("i%d:%d", a.w, a.val), true
		}
		return "", false
	case Str:
		s, ok := m.concStr(a)
		return "s" + fmt.Sprint(len(s)) + ":" + s, ok
	case *Ptr:
		return "p" + a.key(), true
	case *Agg:
		var sb strings.Builder
		sb.WriteString("a(")
		for _, e := range a.elems {
			s, ok := m.concKey(e)
			if !ok {
				return "", false
			}
			sb.WriteString(s)
			sb.WriteByte(',')
		}
		return sb.String() + ")", true
	case Iface:
		if a.typ == nil {
			return "nil", true
		}
		s, ok := m.concKey(a.val)
		return "I" + types.TypeString(a.typ, nil) + "|" + s, ok
	case UPtr:
		return "u" + a.p.key(), true
	case Float:
		if a.t == nil {
			return fmt.Sprintf("f%v", a.f), true
		}
		return "", false
	}
	return "", false
}

func (m *Machine) mapObj(p *Ptr) *MapObj {
	v := m.loadRaw(p)
	mo, ok := v.(*MapObj)
	if !ok {
		m.unsupported("map is %T", v)
	}
	return mo
}

func (m *Machine) ownMap(p *Ptr) *MapObj {
	o := m.ownObj(p.obj)
	mo := o.root.(*MapObj)
	if mo.gen == m.st.gen {
		return mo
	}
	n := &MapObj{gen: m.st.gen, kt: mo.kt, vt: mo.vt, typ: mo.typ, nsym: mo.nsym, nextID: mo.nextID}
	n.entries = append(make([]MapEntry, 0, len(mo.entries)+4), mo.entries...)
	if len(n.entries) > 8 {
		n.idx = make(map[string]int, len(mo.idx))
		for k, v := range mo.idx {
			n.idx[k] = v
		}
		if mo.idx == nil {
			n.idx = nil
		}
	}
	o.root = n
	return n
}

// mapFind returns the position of key or -1, forking on symbolic equality.
func (m *Machine) mapFind(mo *MapObj, key Value) int {
	ck, conc := m.concKey(key)
	if conc && mo.nsym == 0 {
		if len(mo.entries) > 8 {
			if mo.idx != nil {
				if i, ok := mo.idx[ck]; ok {
					return i
				}
				return -1
			}
		}
		for i := range mo.entries {
			if k, _ := m.concKey(mo.entries[i].key); k == ck {
				return i
			}
		}
		return -1
	}
	for i := range mo.entries {
		if m.decide(m.equal(mo.entries[i].key, key)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(p *Ptr, key, val Value) {
	mo := m.mapObj(p)
	i := m.mapFind(mo, key)
	mo = m.ownMap(p)
	m.freeze(val)
	m.freeze(key)
	if i >= 0 {
		mo.entries[i].val = val
		return
	}
	ck, conc := m.concKey(key)
	if !conc {
		mo.nsym++
		if s, ok := key.(Str); ok && s.alias != nil {
			// Go would keep the aliased bytes; snapshotting is only exact when
			// they never change, so keep the alias.
			_ = s
		}
	}
	mo.entries = append(mo.entries, MapEntry{key: key, val: val, id: mo.nextID})
	mo.nextID++
	if len(mo.entries) > 8 && mo.nsym == 0 {
		if mo.idx == nil {
			mo.idx = make(map[string]int, len(mo.entries)*2)
			for j := range mo.entries {
				k, _ := m.concKey(mo.entries[j].key)
				mo.idx[k] = j
			}
		} else {
			mo.idx[ck] = len(mo.entries) - 1
		}
	} else {
		mo.idx = nil
	}
}

func (m *Machine) mapDelete(p *Ptr, key Value) {
	if p == nil {
		return
	}
	mo := m.mapObj(p)
	i := m.mapFind(mo, key)
	m.accessKey(p.key()+".map", true)
	if i < 0 {
		return
	}
	mo = m.ownMap(p)
	if _, conc := m.concKey(mo.entries[i].key); !conc {
		mo.nsym--
	}
	mo.entries = append(mo.entries[:i:i], mo.entries[i+1:]...)
	mo.idx = nil
	if len(mo.entries) > 8 && mo.nsym == 0 {
		mo.idx = make(map[string]int, len(mo.entries)*2)
		for j := range mo.entries {
			k, _ := m.concKey(mo.entries[j].key)
			mo.idx[k] = j
		}
	}
}

func (m *Machine) lookup(fr *Frame, x *ssa.Lookup) {
	base := m.val(fr, x.X)
	if s, ok := base.(Str); ok {
		m.strIndex(fr, x, s, m.val(fr, x.Index).(*Term), isSigned(x.Index.Type()))
		return
	}
	p := base.(*Ptr)
	key := m.val(fr, x.Index)
	mt := x.X.Type().Underlying().(*types.Map)
	found := false
	v := zero(mt.Elem())
	if p != nil {
		mo := m.mapObj(p)
		if i := m.mapFind(mo, key); i >= 0 {
			v, found = mo.entries[i].val, true
			if po, ok := v.(Poison); ok {
				m.unsupported("poisoned map value: %s", po.why)
			}
		}
		m.accessKey(p.key()+".map", false)
	}
	if x.CommaOk {
		m.set(fr, x, Tuple{v, Bool(found)})
	} else {
		m.set(fr, x, v)
	}
	m.next()
}

func (m *Machine) mapUpdate(fr *Frame, x *ssa.MapUpdate) {
	p := m.val(fr, x.Map).(*Ptr)
	if p == nil {
		m.doPanic(Iface{typ: m.eng.rtErr, val: cstr("assignment to entry in nil map")})
		return
	}
	k, v := m.val(fr, x.Key), m.val(fr, x.Value)
	m.mapSet(p, k, v)
	m.accessKey(p.key()+".map", true)
	m.next()
}

func (m *Machine) rangeOp(fr *Frame, x *ssa.Range) {
	v := m.val(fr, x.X)
	it := &Iter{gen: m.st.gen}
	switch a := v.(type) {
	case Str:
		it.isStr, it.str = true, a
	case *Ptr:
		it.m = a
		if a != nil {
			for _, e := range m.mapObj(a).entries {
				it.keys = append(it.keys, e.id)
			}
		}
	default:
		m.unsupported("range over %T", v)
	}
	m.set(fr, x, m.alloc(it, nil))
	m.next()
}

func (m *Machine) nextOp(fr *Frame, x *ssa.Next) {
	ip := m.val(fr, x.Iter).(*Ptr)
	it := m.loadRaw(ip).(*Iter)
	if x.IsString {
		if it.pos >= it.str.n {
			m.set(fr, x, Tuple{tFalse, Const(0, 64), Const(0, 32)})
			m.next()
			return
		}
		b := m.strByte(it.str, it.pos)
		n := 1
		var r *Term
		if m.decide(Ult(b, Const(0x80, 8))) {
			r = ZExt(b, 32)
		} else {
			var buf []byte
			for k := it.pos; k < it.str.n && k < it.pos+4; k++ {
				c := m.strByte(it.str, k)
				if !c.IsConst() {
					m.unsupported("range over symbolic non-ASCII string")
				}
				buf = append(buf, byte(c.val))
			}
			rr, sz := utf8.DecodeRune(buf)
			r, n = Const(uint64(rr), 32), sz
		}
		pos := it.pos
		ni := *it
		ni.pos += n
		m.ownObj(ip.obj).root = &ni
		m.set(fr, x, Tuple{tTrue, Const(uint64(pos), 64), r})
		m.next()
		return
	}
	tt := x.Type().(*types.Tuple)
	done := func() {
		z := func(i int) Value {
			t := tt.At(i).Type()
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Invalid {
				return Tuple{}
			}
			return zero(t)
		}
		m.set(fr, x, Tuple{tFalse, z(1), z(2)})
		m.next()
	}
	if it.m == nil {
		done()
		return
	}
	mo := m.mapObj(it.m)
	m.accessKey(it.m.key()+".map", false)
	// candidates still present, in order
	var cand []int
	for _, id := range it.keys {
		for i := range mo.entries {
			if mo.entries[i].id == id {
				cand = append(cand, i)
				break
			}
		}
	}
	if len(cand) == 0 {
		done()
		return
	}
	k := 0
	if m.st.flags["maporder"] > 0 && len(cand) > 1 && m.eng.info(x.Parent()).isRepo {
		k = m.choose(len(cand), "maporder")
	}
	e := mo.entries[cand[k]]
	ni := &Iter{gen: m.st.gen, m: it.m}
	for _, id := range it.keys {
		if id != e.id {
			ni.keys = append(ni.keys, id)
		}
	}
	m.ownObj(ip.obj).root = ni
	m.set(fr, x, Tuple{tTrue, e.key, e.val})
	m.next()
}

// ---- type assertions ----

func (m *Machine) typeAssert(fr *Frame, x *ssa.TypeAssert) {
	v := m.val(fr, x.X).(Iface)
	ok := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		ok = v.typ != nil && m.eng.implements(v.typ, it)
		r = v
		if !ok {
			r = Iface{}
		}
	} else {
		ok = v.typ != nil && types.Identical(v.typ, x.AssertedType)
		if ok {
			r = v.val
		} else {
			r = zero(x.AssertedType)
		}
	}
	if x.CommaOk {
		m.set(fr, x, Tuple{r, Bool(ok)})
		m.next()
		return
	}
	if !ok {
		d := "nil"
		if v.typ != nil {
			d = v.typ.String()
		}
		m.doPanic(Iface{typ: m.eng.rtErr, val: cstr("interface conversion: interface is " + d + ", not " + x.AssertedType.String())})
		return
	}
	m.set(fr, x, r)
	m.next()
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if v, ok := e.msCache.Load(implKey{t, it}); ok {
		return v.(bool)
	}
	e.typeMu.Lock()
	r := types.Implements(t, it)
	e.typeMu.Unlock()
	e.msCache.Store(implKey{t, it}, r)
	return r
}

// ---- builtins ----

func (m *Machine) deferredBuiltin(d DeferRec) {
	switch d.bi.Name() {
	case "close":
		m.chanClose(d.args[0].(*Ptr))
	case "delete":
		m.mapDelete(d.args[0].(*Ptr), d.args[1])
	case "print", "println":
	case "recover":
	case "panic":
		m.doPanic(d.args[0])
	default:
		m.unsupported("deferred builtin %s", d.bi.Name())
	}
}

func (m *Machine) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) {
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case Slice:
			m.deliver(Const(uint64(a.len), 64))
		case Str:
			m.deliver(Const(uint64(a.n), 64))
		case *Ptr:
			if a == nil {
				m.deliver(Const(0, 64))
				return
			}
			switch o := m.loadRaw(a).(type) {
			case *MapObj:
				m.accessKey(a.key()+".map", false)
				m.deliver(Const(uint64(len(o.entries)), 64))
			case *ChanObj:
				m.deliver(Const(uint64(len(o.buf)), 64))
			case *Agg:
				m.deliver(Const(uint64(len(o.elems)), 64))
			default:
				m.unsupported("len of %T", o)
			}
		case *Agg:
			m.deliver(Const(uint64(len(a.elems)), 64))
		default:
			m.unsupported("len of %T", a)
		}
	case "cap":
		switch a := args[0].(type) {
		case Slice:
			m.deliver(Const(uint64(a.cap), 64))
		case *Ptr:
			if a == nil {
				m.deliver(Const(0, 64))
				return
			}
			switch o := m.loadRaw(a).(type) {
			case *ChanObj:
				m.deliver(Const(uint64(o.cap), 64))
			case *Agg:
				m.deliver(Const(uint64(len(o.elems)), 64))
			default:
				m.unsupported("cap of %T", o)
			}
		default:
			m.unsupported("cap of %T", a)
		}
	case "append":
		m.deliver(m.appendOp(args[0], args[1], c.Args[0].Type()))
	case "copy":
		d := args[0].(Slice)
		var vs []Value
		switch s := args[1].(type) {
		case Slice:
			n := min(d.len, s.len)
			vs = m.sliceElems(Slice{arr: s.arr, off: s.off, len: n})
		case Str:
			ts := m.strTerms(m.subStr(s, 0, min(s.n, d.len)))
			for _, t := range ts {
				vs = append(vs, t)
			}
		}
		m.writeArrSafe(d, vs)
		m.deliver(Const(uint64(len(vs)), 64))
	case "delete":
		m.mapDelete(args[0].(*Ptr), args[1])
		m.deliver(Tuple{})
	case "clear":
		switch a := args[0].(type) {
		case *Ptr:
			if a != nil {
				mo := m.ownMap(a)
				mo.entries, mo.idx, mo.nsym = nil, nil, 0
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			vs := make([]Value, a.len)
			for i := range vs {
				vs[i] = zero(et)
			}
			m.writeArrSafe(a, vs)
		}
		m.deliver(Tuple{})
	case "print", "println":
		m.deliver(Tuple{})
	case "panic":
		m.doPanic(args[0])
	case "recover":
		m.deliver(m.doRecover())
	case "close":
		m.chanClose(args[0].(*Ptr))
		if len(m.g.panics) == 0 || true {
			m.deliverIfSame()
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok := r.(*Term)
			if !ok {
				m.unsupported("min/max on %T", r)
			}
			y := a.(*Term)
			lt := Ult(x, y)
			if isSigned(c.Args[0].Type()) {
				lt = Slt(x, y)
			}
			if b.Name() == "min" {
				r = Ite(lt, x, y)
			} else {
				r = Ite(lt, y, x)
			}
		}
		m.deliver(r)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Ptr); ok && p == nil {
			m.nilDeref()
			return
		}
		m.deliver(args[0])
	case "String": // unsafe.String
		p := args[0].(*Ptr)
		n := int(m.concInt(args[1].(*Term)))
		if n == 0 {
			m.deliver(cstr(""))
			return
		}
		if p == nil {
			m.rtPanic("unsafe.String: ptr is nil and len is not zero")
			return
		}
		m.deliver(Str{n: n, alias: p})
	case "StringData":
		s := args[0].(Str)
		m.deliver(m.strData(s))
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			m.deliver(nilPtr)
			return
		}
		m.deliver(s.arr.elem(s.off))
	case "Slice": // unsafe.Slice
		p := args[0].(*Ptr)
		n := int(m.concInt(args[1].(*Term)))
		if p == nil {
			m.deliver(Slice{})
			return
		}
		arr, off := m.splitElem(p)
		m.deliver(Slice{arr: arr, off: off, len: n, cap: n})
	case "Add": // unsafe.Add
		p := args[0].(*Ptr)
		n := int(m.concInt(args[1].(*Term)))
		if n == 0 {
			m.deliver(p)
			return
		}
		arr, off := m.splitElem(p)
		if a, ok := m.loadRaw(arr).(*Agg); ok && len(a.elems) > 0 {
			if t, ok := a.elems[0].(*Term); ok && t.w == 8 {
				m.deliver(arr.elem(off + n))
				return
			}
		}
		m.unsupported("unsafe.Add")
	default:
		m.unsupported("builtin %s", b.Name())
	}
}

// deliverIfSame advances past a builtin call unless it panicked.
func (m *Machine) deliverIfSame() {
	if m.curIns != nil && len(m.g.frames) > 0 {
		fr := m.frame()
		if fr.ip < len(fr.block.Instrs) && fr.block.Instrs[fr.ip] == m.curIns {
			if len(m.g.panics) > 0 && m.g.panics[len(m.g.panics)-1].depth == len(m.g.frames)-1 {
				return
			}
			m.deliver(Tuple{})
		}
	}
}

func (m *Machine) writeArrSafe(d Slice, vs []Value) {
	if len(vs) == 0 {
		return
	}
	m.writeArr(d.arr, d.off, vs)
}

func (m *Machine) appendOp(x, y Value, t types.Type) Value {
	s := x.(Slice)
	var vs []Value
	switch b := y.(type) {
	case Slice:
		vs = m.sliceElems(b)
	case Str:
		for _, t := range m.strTerms(b) {
			vs = append(vs, t)
		}
	}
	if len(vs) == 0 {
		return s
	}
	n := s.len + len(vs)
	if n <= s.cap {
		m.writeArr(s.arr, s.off+s.len, vs)
		return Slice{arr: s.arr, off: s.off, len: n, cap: s.cap}
	}
	et := t.Underlying().(*types.Slice).Elem()
	nc := growCap(s.cap, n, et)
	es := make([]Value, nc)
	copy(es, m.sliceElems(s))
	copy(es[s.len:], vs)
	if n < nc {
		z := zero(et)
		for i := n; i < nc; i++ {
			es[i] = z
		}
	}
	r := m.newSlice(es, et)
	for i := s.len; i < n; i++ {
		m.freeze(es[i])
	}
	r.len = n
	return r
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var stdSizes = types.SizesFor("gc", "amd64")

func growCap(old, n int, et types.Type) int {
	c := old
	if d := 2 * old; n > d {
		c = n
	} else if old < 256 {
		c = d
	} else {
		for c < n {
			c += (c + 3*256) / 4
		}
	}
	sz := int(stdSizes.Sizeof(et))
	if sz == 0 {
		return n
	}
	b := c * sz
	for _, k := range sizeClasses {
		if b <= k {
			return k / sz
		}
	}
	b = (b + 8191) / 8192 * 8192
	return b / sz
}
