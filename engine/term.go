package main

// Hash-consed QF_BV terms (width 1..64, width 0 = Bool) with an aggressive
// local simplifier and unsigned/signed interval metadata.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OConcat
	OExtract // val = hi<<8|lo
	OZExt
	OSExt
)

var opName = [...]string{"const", "var", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite",
	"bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg",
	"bvshl", "bvlshr", "bvashr", "concat", "extract", "zext", "sext"}

type Term struct {
	op         Op
	w          uint8
	id         uint32
	val        uint64
	a, b, c    *Term
	name       string
	umin, umax uint64
	smin, smax int64
	vset       atomic.Pointer[[]*Term] // its variables, by id (set on demand)
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
}

const nShards = 128

type shard struct {
	mu sync.Mutex
	m  map[termKey]*Term
	_  [40]byte
}

var shards [nShards]shard
var termSeq uint32
var varMu sync.Mutex
var varTab = map[string]*Term{}
var smallConst [65][1024]*Term
var tTrue, tFalse *Term

func init() {
	for i := range shards {
		shards[i].m = map[termKey]*Term{}
	}
	tTrue = &Term{op: OConst, w: 0, val: 1, id: newID(), umin: 1, umax: 1}
	tFalse = &Term{op: OConst, w: 0, val: 0, id: newID()}
	for w := 1; w <= 64; w++ {
		if w != 8 && w != 16 && w != 32 && w != 64 {
			continue
		}
		for v := 0; v < 1024; v++ {
			if uint64(v) <= maskW(uint8(w)) {
				smallConst[w][v] = newConst(uint64(v), uint8(w))
			}
		}
	}
}

func newID() uint32 { return atomic.AddUint32(&termSeq, 1) }

func maskW(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func newConst(v uint64, w uint8) *Term {
	s := sext64(v, w)
	return &Term{op: OConst, w: w, val: v, id: newID(), umin: v, umax: v, smin: s, smax: s}
}

func intern(k termKey, mk func() *Term) *Term {
	h := (uint64(k.a)*0x9E3779B1 ^ uint64(k.b)*0x85EBCA77 ^ uint64(k.c)*0xC2B2AE3D ^ k.val*0x27D4EB2F165667C5 ^ uint64(k.op)<<5) * 0x9E3779B97F4A7C15
	s := &shards[(h>>40)%nShards]
	s.mu.Lock()
	if t, ok := s.m[k]; ok {
		s.mu.Unlock()
		return t
	}
	t := mk()
	s.m[k] = t
	s.mu.Unlock()
	return t
}

func Const(v uint64, w uint8) *Term {
	v &= maskW(w)
	if w == 0 {
		return Bool(v&1 == 1)
	}
	if v < 1024 && smallConst[w][v] != nil {
		return smallConst[w][v]
	}
	return intern(termKey{op: OConst, w: w, val: v}, func() *Term { return newConst(v, w) })
}

func Bool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// Var returns the variable of that name; lo..hi is its declared unsigned range
// (the caller must assert it).
func Var(name string, w uint8, lo, hi uint64) *Term {
	varMu.Lock()
	defer varMu.Unlock()
	k := name + "/" + strconv.Itoa(int(w)) + "/" + strconv.FormatUint(lo, 10) + "/" + strconv.FormatUint(hi, 10)
	if t, ok := varTab[k]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, id: newID(), name: name, umin: lo, umax: hi}
	setS(t)
	varTab[k] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Int() int64    { return sext64(t.val, t.w) }

// setS derives signed bounds from unsigned ones.
func setS(t *Term) {
	if t.w == 0 {
		return
	}
	half := uint64(1) << (t.w - 1)
	if t.umax < half || t.umin >= half {
		t.smin, t.smax = sext64(t.umin, t.w), sext64(t.umax, t.w)
	} else {
		t.smin, t.smax = -int64(half-1)-1, int64(half-1)
	}
}

func mk(op Op, w uint8, a, b, c *Term, val uint64, rng func(t *Term)) *Term {
	k := termKey{op: op, w: w, val: val}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if c != nil {
		k.c = c.id
	}
	return intern(k, func() *Term {
		t := &Term{op: op, w: w, id: newID(), val: val, a: a, b: b, c: c}
		if w == 0 {
			t.umax = 1
			return t
		}
		t.umax = maskW(w)
		setS(t)
		if rng != nil {
			rng(t)
			refine(t)
		}
		return t
	})
}

// refine makes the two intervals consistent with each other.
func refine(t *Term) {
	half := uint64(1) << (t.w - 1)
	if t.umax < half || t.umin >= half {
		s0, s1 := sext64(t.umin, t.w), sext64(t.umax, t.w)
		if s0 > t.smin {
			t.smin = s0
		}
		if s1 < t.smax {
			t.smax = s1
		}
	}
	if t.smin >= 0 {
		if uint64(t.smin) > t.umin {
			t.umin = uint64(t.smin)
		}
		if uint64(t.smax) < t.umax {
			t.umax = uint64(t.smax)
		}
	} else if t.smax < 0 {
		m := maskW(t.w)
		if uint64(t.smin)&m > t.umin {
			t.umin = uint64(t.smin) & m
		}
		if uint64(t.smax)&m < t.umax {
			t.umax = uint64(t.smax) & m
		}
	}
}

// ---- booleans ----

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == ONot:
		return a.a
	case a.op == OUlt:
		return Ule(a.b, a.a)
	case a.op == OUle:
		return Ult(a.b, a.a)
	case a.op == OSlt:
		return Sle(a.b, a.a)
	case a.op == OSle:
		return Slt(a.b, a.a)
	}
	return mk(ONot, 0, a, nil, nil, 0, nil)
}

func And(a, b *Term) *Term {
	if a == tFalse || b == tFalse {
		return tFalse
	}
	if a == tTrue || a == b {
		return b
	}
	if b == tTrue {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OAnd, 0, a, b, nil, 0, nil)
}

func Or(a, b *Term) *Term {
	if a == tTrue || b == tTrue {
		return tTrue
	}
	if a == tFalse || a == b {
		return b
	}
	if b == tFalse {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OOr, 0, a, b, nil, 0, nil)
}

func Xor(a, b *Term) *Term { return Not(Eq(a, b)) }

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.w != b.w {
		panic(engErr{fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, a, b)})
	}
	if a.IsConst() && b.IsConst() {
		return Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return Not(a)
		}
		if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
			return tFalse
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OEq, 0, a, b, nil, 0, nil)
	}
	if a.umax < b.umin || b.umax < a.umin || a.smax < b.smin || b.smax < a.smin {
		return tFalse
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch a.op {
		case OZExt:
			if b.val > maskW(a.a.w) {
				return tFalse
			}
			return Eq(a.a, Const(b.val, a.a.w))
		case OSExt:
			if uint64(sext64(b.val&maskW(a.a.w), a.a.w))&maskW(a.w) != b.val {
				return tFalse
			}
			return Eq(a.a, Const(b.val, a.a.w))
		case OConcat:
			lw := a.b.w
			return And(Eq(a.a, Const(b.val>>lw, a.a.w)), Eq(a.b, Const(b.val, lw)))
		case OAdd:
			if a.b.IsConst() {
				return Eq(a.a, Const(b.val-a.b.val, a.w))
			}
		case OBXor:
			if a.b.IsConst() {
				return Eq(a.a, Const(b.val^a.b.val, a.w))
			}
		case OBNot:
			return Eq(a.a, Const(^b.val, a.w))
		case ONeg:
			return Eq(a.a, Const(-b.val, a.w))
		case OMul:
			if a.b.IsConst() && a.b.val != 0 {
				if hi, _ := bits.Mul64(a.a.umax, a.b.val); hi == 0 && a.a.umax*a.b.val <= maskW(a.w) {
					if b.val%a.b.val != 0 {
						return tFalse
					}
					return Eq(a.a, Const(b.val/a.b.val, a.w))
				}
			}
		case OIte:
			if a.b.IsConst() || a.c.IsConst() {
				x, y := Eq(a.b, b), Eq(a.c, b)
				if x.IsConst() || y.IsConst() {
					return IteB(a.a, x, y)
				}
			}
		}
	} else {
		if a.op == OZExt && b.op == OZExt {
			if a.a.w == b.a.w {
				return Eq(a.a, b.a)
			}
			if a.a.w > b.a.w {
				return Eq(a.a, ZExt(b.a, a.a.w))
			}
			return Eq(ZExt(a.a, b.a.w), b.a)
		}
		if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
			return Eq(a.a, b.a)
		}
		if a.op == OConcat && b.op == OConcat && a.b.w == b.b.w {
			return And(Eq(a.a, b.a), Eq(a.b, b.b))
		}
		if a.op == OConcat && b.op == OConcat {
			return eqPieces(a, b)
		}
		if a.op == OConcat && b.op == OVar || b.op == OConcat && a.op == OVar {
			return eqPieces(a, b)
		}
		if a.op == OAdd && b.op == OAdd && a.b == b.b {
			return Eq(a.a, b.a)
		}
		if a.op == OAdd && b.op == OAdd && a.b.IsConst() && b.b.IsConst() {
			return Eq(a.a, Add(b.a, Const(b.b.val-a.b.val, a.w)))
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, 0, a, b, nil, 0, nil)
}

func eqPieces(a, b *Term) *Term {
	sa, sb := segs(a, nil), segs(b, nil)
	sa, sb = align(sa, sb)
	r := tTrue
	for i := range sa {
		r = And(r, eqLeaf(sa[i], sb[i]))
	}
	return r
}

func eqLeaf(a, b *Term) *Term {
	if a.op == OConcat || b.op == OConcat {
		if a == b {
			return tTrue
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OEq, 0, a, b, nil, 0, nil)
	}
	if a.op == OVar && b.op == OVar && a != b {
		if a.id > b.id {
			a, b = b, a
		}
		return mk(OEq, 0, a, b, nil, 0, nil)
	}
	return Eq(a, b)
}

func Ult(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.umax < b.umin {
		return tTrue
	}
	if a.umin >= b.umax {
		return tFalse
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return Ult(a.a, b.a)
	}
	if a.op == OZExt && b.IsConst() {
		return Ult(a.a, Const(b.val, a.a.w))
	}
	if b.op == OZExt && a.IsConst() {
		return Ult(Const(a.val, b.a.w), b.a)
	}
	if b.IsConst() && b.val == 1 {
		return Eq(a, Const(0, a.w))
	}
	if t := cmpLin(a, b, false, true); t != nil {
		return t
	}
	if a.smin >= 0 && b.smin >= 0 {
		if t := cancel(a, b, true); t != nil {
			return t
		}
	}
	return mk(OUlt, 0, a, b, nil, 0, nil)
}

func Ule(a, b *Term) *Term {
	if a == b || a.umax <= b.umin {
		return tTrue
	}
	if a.umin > b.umax {
		return tFalse
	}
	if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return Ule(a.a, b.a)
	}
	if b.IsConst() {
		return Ult(a, Const(b.val+1, a.w)) // b.val+1 cannot wrap: b.val < a.umax
	}
	if a.IsConst() {
		return Ult(Const(a.val-1, a.w), b) // a.val > b.umin >= 0
	}
	if a.smin >= 0 && b.smin >= 0 {
		if t := cancel(a, b, false); t != nil {
			return t
		}
	}
	return mk(OUle, 0, a, b, nil, 0, nil)
}

// cmpLin simplifies (x*c | x+c) < const and const < (x*c | x+c) when the
// operation provably does not wrap.
func cmpLin(a, b *Term, signed, strict bool) *Term {
	m := maskW(a.w)
	if !signed {
		if b.IsConst() {
			k := b.val
			if a.op == OMul && a.b.IsConst() && a.b.val != 0 && nomulover(a.a.umax, a.b.val, a.w) {
				c := a.b.val // x*c < k  <=> x < ceil(k/c)
				q := k / c
				if k%c != 0 {
					q++
				}
				return Ult(a.a, Const(q, a.w))
			}
			if a.op == OAdd && a.b.IsConst() {
				c := a.b.val
				if a.a.umax <= m-c { // no wrap
					if k <= c {
						return tFalse
					}
					return Ult(a.a, Const(k-c, a.w))
				}
			}
		} else if a.IsConst() {
			k := a.val
			if b.op == OMul && b.b.IsConst() && b.b.val != 0 && nomulover(b.a.umax, b.b.val, b.w) {
				return Ult(Const(k/b.b.val, a.w), b.a) // k < x*c <=> floor(k/c) < x
			}
			if b.op == OAdd && b.b.IsConst() {
				c := b.b.val
				if b.a.umax <= m-c {
					if k < c {
						return tTrue
					}
					return Ult(Const(k-c, a.w), b.a)
				}
			}
		}
		return nil
	}
	if b.IsConst() {
		k := b.Int()
		if a.op == OMul && a.b.IsConst() && a.b.Int() > 0 && nosmulover(a.a, a.b.Int(), a.w) {
			c := a.b.Int() // x*c < k <=> x < ceil(k/c)
			return Slt(a.a, Const(uint64(ceilDiv(k, c)), a.w))
		}
		if a.op == OAdd && a.b.IsConst() && nosaddover(a.a, a.b.Int(), a.w) {
			c := a.b.Int()
			if v, ok := subS(k, c, a.w); ok {
				return Slt(a.a, Const(uint64(v), a.w))
			}
		}
	} else if a.IsConst() {
		k := a.Int()
		if b.op == OMul && b.b.IsConst() && b.b.Int() > 0 && nosmulover(b.a, b.b.Int(), b.w) {
			return Slt(Const(uint64(floorDiv(k, b.b.Int())), a.w), b.a)
		}
		if b.op == OAdd && b.b.IsConst() && nosaddover(b.a, b.b.Int(), b.w) {
			if v, ok := subS(k, b.b.Int(), a.w); ok {
				return Slt(Const(uint64(v), a.w), b.a)
			}
		}
	}
	return nil
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func sRange(w uint8) (int64, int64) {
	if w >= 64 {
		return -1 << 63, 1<<63 - 1
	}
	return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1
}

func nomulover(x, c uint64, w uint8) bool {
	hi, lo := bits.Mul64(x, c)
	return hi == 0 && lo <= maskW(w)
}
func mulS(a, b int64, w uint8) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || (a == -1 && b == -1<<63) || (b == -1 && a == -1<<63) {
		return 0, false
	}
	lo, hi := sRange(w)
	return p, p >= lo && p <= hi
}
func addS(a, b int64, w uint8) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, false
	}
	lo, hi := sRange(w)
	return s, s >= lo && s <= hi
}
func subS(a, b int64, w uint8) (int64, bool) {
	s := a - b
	if (a >= 0 && b < 0 && s < 0) || (a < 0 && b > 0 && s >= 0) {
		return 0, false
	}
	lo, hi := sRange(w)
	return s, s >= lo && s <= hi
}
func nosmulover(x *Term, c int64, w uint8) bool {
	_, o1 := mulS(x.smin, c, w)
	_, o2 := mulS(x.smax, c, w)
	return o1 && o2
}
func nosaddover(x *Term, c int64, w uint8) bool {
	_, o1 := addS(x.smin, c, w)
	_, o2 := addS(x.smax, c, w)
	return o1 && o2
}

func Slt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if a.smax < b.smin {
		return tTrue
	}
	if a.smin >= b.smax {
		return tFalse
	}
	if a.smin >= 0 && b.smin >= 0 {
		return Ult(a, b)
	}
	if a.op == OSExt && b.op == OSExt && a.a.w == b.a.w {
		return Slt(a.a, b.a)
	}
	if t := cmpLin(a, b, true, true); t != nil {
		return t
	}
	if t := cancel(a, b, true); t != nil {
		return t
	}
	return mk(OSlt, 0, a, b, nil, 0, nil)
}

func Sle(a, b *Term) *Term {
	if a == b || a.smax <= b.smin {
		return tTrue
	}
	if a.smin > b.smax {
		return tFalse
	}
	if a.smin >= 0 && b.smin >= 0 {
		return Ule(a, b)
	}
	if b.IsConst() {
		return Slt(a, Const(b.val+1, a.w))
	}
	if a.IsConst() {
		return Slt(Const(a.val-1, a.w), b)
	}
	if t := cancel(a, b, false); t != nil {
		return t
	}
	return mk(OSle, 0, a, b, nil, 0, nil)
}

func IteB(c, a, b *Term) *Term { return Ite(c, a, b) }

func Ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
		return mk(OIte, 0, c, a, b, 0, nil)
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return mk(OIte, a.w, c, a, b, 0, func(t *Term) {
		t.umin, t.umax = min(a.umin, b.umin), max(a.umax, b.umax)
		t.smin, t.smax = min(a.smin, b.smin), max(a.smax, b.smax)
	})
}

// ---- bit vectors ----

func Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.val+b.val, a.w)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.IsConst() {
			return Add(a.a, Const(a.b.val+b.val, a.w))
		}
	} else {
		if a.op == OAdd && a.b.IsConst() {
			return Add(Add(a.a, b), a.b)
		}
		if b.op == OAdd && b.b.IsConst() {
			return Add(Add(a, b.a), b.b)
		}
		if a.op == OSub && a.b == b {
			return a.a
		}
		if b.op == OSub && b.b == a {
			return b.a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return mk(OAdd, a.w, a, b, nil, 0, func(t *Term) {
		m := maskW(a.w)
		if a.umax <= m-b.umax {
			t.umin, t.umax = a.umin+b.umin, a.umax+b.umax
		} else if b.IsConst() {
			neg := (-b.val) & m // a - neg
			if a.umin >= neg {
				t.umin, t.umax = a.umin-neg, a.umax-neg
			}
		}
		lo, o1 := addS(a.smin, b.smin, a.w)
		hi, o2 := addS(a.smax, b.smax, a.w)
		if o1 && o2 {
			t.smin, t.smax = lo, hi
		}
	})
}

func Sub(a, b *Term) *Term {
	if b.IsConst() {
		return Add(a, Const(-b.val, a.w))
	}
	if a == b {
		return Const(0, a.w)
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.IsConst() {
			return Add(Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd {
		if b.b.IsConst() {
			return Add(Sub(a, b.a), Const(-b.b.val, a.w))
		}
		if b.a == a {
			return Neg(b.b)
		}
		if b.b == a {
			return Neg(b.a)
		}
	}
	if a.IsConst() && a.val == 0 {
		return Neg(b)
	}
	return mk(OSub, a.w, a, b, nil, 0, func(t *Term) {
		if a.umin >= b.umax {
			t.umin, t.umax = a.umin-b.umax, a.umax-b.umin
		}
		lo, o1 := subS(a.smin, b.smax, a.w)
		hi, o2 := subS(a.smax, b.smin, a.w)
		if o1 && o2 {
			t.smin, t.smax = lo, hi
		}
	})
}

func Neg(a *Term) *Term {
	if a.IsConst() {
		return Const(-a.val, a.w)
	}
	if a.op == ONeg {
		return a.a
	}
	return mk(ONeg, a.w, a, nil, nil, 0, func(t *Term) {
		lo, _ := sRange(a.w)
		if a.smin > lo {
			t.smin, t.smax = -a.smax, -a.smin
		}
	})
}

func bitlen(v uint64) uint8 { return uint8(bits.Len64(v)) }

func Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.val*b.val, a.w)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		switch b.val {
		case 0:
			return b
		case 1:
			return a
		}
		if b.val == maskW(a.w) {
			return Neg(a)
		}
		if a.op == OMul && a.b.IsConst() {
			return Mul(a.a, Const(a.b.val*b.val, a.w))
		}
		if b.val&(b.val-1) == 0 && !(a.w == 64 && false) {
			// keep as multiplication for range rules
		}
		if a.op == OAdd && a.b.IsConst() {
			return Add(Mul(a.a, b), Const(a.b.val*b.val, a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, a.w, a, b, nil, 0, func(t *Term) {
		if nomulover(a.umax, b.umax, a.w) {
			t.umin, t.umax = a.umin*b.umin, a.umax*b.umax
		}
		if b.IsConst() {
			c := b.Int()
			x, o1 := mulS(a.smin, c, a.w)
			y, o2 := mulS(a.smax, c, a.w)
			if o1 && o2 {
				t.smin, t.smax = min(x, y), max(x, y)
			}
		}
	})
}

func UDiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		if b.val == 0 {
			return Const(maskW(a.w), a.w)
		}
		return Const(a.val/b.val, a.w)
	}
	if b.IsConst() && b.val != 0 {
		c := b.val
		if c == 1 {
			return a
		}
		if a.umax < c {
			return Const(0, a.w)
		}
		if a.smin >= 0 {
			if q := exact(a, b.Int()); q != nil {
				return q
			}
		}
		if c&(c-1) == 0 {
			return LShr(a, Const(uint64(bits.TrailingZeros64(c)), a.w))
		}
		if a.op == OMul && a.b.IsConst() && nomulover(a.a.umax, a.b.val, a.w) {
			k := a.b.val
			if k%c == 0 {
				return Mul(a.a, Const(k/c, a.w))
			}
		}
		// (x*k + d) / k with d<k
		if a.op == OAdd {
			if q := divAdd(a, c); q != nil {
				return q
			}
		}
		if a.umin >= c {
			// a multiple of c can be split off a constant summand
			if x, k := constSum(a); k >= c {
				return Add(UDiv(Add(x, Const(k%c, a.w)), b), Const(k/c, a.w))
			}
		}
		if a.umax < 2*c && c < 1<<62 {
			return Ite(Ult(a, b), Const(0, a.w), Const(1, a.w))
		}
		if a.op == OUDiv && a.b.IsConst() && nomulover(a.b.val, c, a.w) {
			return UDiv(a.a, Const(a.b.val*c, a.w))
		}
		if n := max(bitlen(a.umax), bitlen(c)); a.w >= n+8 {
			return ZExt(UDiv(Extract(n-1, 0, a), Const(c, n)), a.w)
		}
	}
	return mk(OUDiv, a.w, a, b, nil, 0, func(t *Term) {
		if b.umin > 0 {
			t.umin, t.umax = a.umin/b.umax, a.umax/b.umin
		}
	})
}

// splitMul recognises x*c (no wrap) + rest (no wrap in the sum); returns x, rest.
func splitMul(a *Term, c uint64) (x, rest *Term) {
	if a.op != OAdd {
		return nil, nil
	}
	p, q := a.a, a.b
	if p.umax > maskW(a.w)-q.umax {
		return nil, nil
	}
	isM := func(t *Term) *Term {
		if t.op == OMul && t.b.IsConst() && t.b.val%c == 0 && t.b.val != 0 && nomulover(t.a.umax, t.b.val, t.w) {
			return Mul(t.a, Const(t.b.val/c, t.w))
		}
		if t.IsConst() && t.val%c == 0 {
			return Const(t.val/c, t.w)
		}
		if t.op == OZExt && t.a.op == OMul && t.a.b.IsConst() && t.a.b.val%c == 0 && t.a.b.val != 0 && nomulover(t.a.a.umax, t.a.b.val, t.a.w) {
			return ZExt(Mul(t.a.a, Const(t.a.b.val/c, t.a.w)), t.w)
		}
		return nil
	}
	if m := isM(p); m != nil {
		return m, q
	}
	if m := isM(q); m != nil {
		return m, p
	}
	return nil, nil
}

// constSum recognises x + k (no wrap) with a constant k; 0 if there is none.
func constSum(a *Term) (*Term, uint64) {
	if a.op == OAdd {
		if a.b.IsConst() && a.a.umax <= maskW(a.w)-a.b.val {
			return a.a, a.b.val
		}
		if a.a.IsConst() && a.b.umax <= maskW(a.w)-a.a.val {
			return a.b, a.a.val
		}
	}
	return nil, 0
}

// mulOf finds q with a = q*c in modular arithmetic, or nil.
func mulOf(a *Term, c uint64, depth int) *Term {
	if depth == 0 {
		return nil
	}
	sub := func(x *Term) *Term { return mulOf(x, c, depth-1) }
	switch a.op {
	case OConst:
		if x := a.Int(); x%int64(c) == 0 {
			return Const(uint64(x/int64(c)), a.w)
		}
	case OMul:
		if a.b.IsConst() {
			if k := a.b.Int(); k%int64(c) == 0 {
				return Mul(a.a, Const(uint64(k/int64(c)), a.w))
			}
		}
	case ONeg:
		if q := sub(a.a); q != nil {
			return Neg(q)
		}
	case OAdd, OSub:
		q := sub(a.a)
		if q == nil {
			return nil
		}
		r := sub(a.b)
		if r == nil {
			return nil
		}
		if a.op == OAdd {
			return Add(q, r)
		}
		return Sub(q, r)
	case OIte:
		q := sub(a.b)
		if q == nil {
			return nil
		}
		if r := sub(a.c); r != nil {
			return Ite(a.a, q, r)
		}
	}
	return nil
}

// exact finds q with a = q*c as signed integers.
func exact(a *Term, c int64) *Term {
	if c <= 1 || c >= 1<<62 || a.w != 64 {
		return nil
	}
	if q := mulOf(a, uint64(c), 12); q != nil && nosmulover(q, c, a.w) {
		return q
	}
	return nil
}

func divAdd(a *Term, c uint64) *Term {
	if x, r := splitMul(a, c); x != nil {
		return Add(x, UDiv(r, Const(c, a.w)))
	}
	return nil
}

func URem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		if b.val == 0 {
			return a
		}
		return Const(a.val%b.val, a.w)
	}
	if b.IsConst() && b.val != 0 {
		c := b.val
		if a.umax < c {
			return a
		}
		if a.smin >= 0 && exact(a, b.Int()) != nil {
			return Const(0, a.w)
		}
		if c&(c-1) == 0 {
			return BAnd(a, Const(c-1, a.w))
		}
		if a.op == OMul && a.b.IsConst() && a.b.val%c == 0 && nomulover(a.a.umax, a.b.val, a.w) {
			return Const(0, a.w)
		}
		if x, r := splitMul(a, c); x != nil {
			return URem(r, b)
		}
		if a.umin >= c {
			if x, k := constSum(a); k >= c {
				return URem(Add(x, Const(k%c, a.w)), b)
			}
		}
		if a.umax < 2*c && c < 1<<62 {
			return Ite(Ult(a, b), a, Sub(a, b))
		}
		if n := max(bitlen(a.umax), bitlen(c)); a.w >= n+8 {
			return ZExt(URem(Extract(n-1, 0, a), Const(c, n)), a.w)
		}
	}
	return mk(OURem, a.w, a, b, nil, 0, func(t *Term) {
		if b.umin > 0 {
			t.umin, t.umax = 0, min(b.umax-1, a.umax)
		}
	})
}

func SDiv(a, b *Term) *Term {
	if a.smin >= 0 && b.smin >= 0 && a.w > 0 {
		return UDiv(a, b)
	}
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := a.Int(), b.Int()
		if y == -1 {
			return Const(uint64(-x), a.w)
		}
		return Const(uint64(x/y), a.w)
	}
	if b.IsConst() && b.val != 0 {
		c := b.Int()
		if c == 1 {
			return a
		}
		if q := exact(a, c); q != nil {
			return q
		}
		if a.op == OMul && a.b.IsConst() && nosmulover(a.a, a.b.Int(), a.w) && a.b.Int()%c == 0 {
			return Mul(a.a, Const(uint64(a.b.Int()/c), a.w))
		}
	}
	return mk(OSDiv, a.w, a, b, nil, 0, func(t *Term) {
		if b.IsConst() && b.Int() > 0 {
			t.smin, t.smax = a.smin/b.Int(), a.smax/b.Int()
		}
	})
}

func SRem(a, b *Term) *Term {
	if a.smin >= 0 && b.smin >= 0 && a.w > 0 {
		return URem(a, b)
	}
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := a.Int(), b.Int()
		if y == -1 {
			return Const(0, a.w)
		}
		return Const(uint64(x%y), a.w)
	}
	if b.IsConst() && b.val != 0 {
		c := b.Int()
		if exact(a, c) != nil {
			return Const(0, a.w)
		}
		if a.op == OMul && a.b.IsConst() && nosmulover(a.a, a.b.Int(), a.w) && a.b.Int()%c == 0 {
			return Const(0, a.w)
		}
	}
	return mk(OSRem, a.w, a, b, nil, 0, func(t *Term) {
		if b.IsConst() && b.Int() > 0 {
			c := b.Int()
			t.smin, t.smax = -(c - 1), c-1
			if a.smin >= 0 {
				t.smin = 0
			}
		}
	})
}

func BNot(a *Term) *Term {
	if a.IsConst() {
		return Const(^a.val, a.w)
	}
	if a.op == OBNot {
		return a.a
	}
	return mk(OBNot, a.w, a, nil, nil, 0, nil)
}

// segs flattens concatenations, most significant first.
func segs(t *Term, out []*Term) []*Term {
	switch t.op {
	case OConcat:
		out = segs(t.a, out)
		return segs(t.b, out)
	case OZExt:
		out = append(out, Const(0, t.w-t.a.w))
		return segs(t.a, out)
	}
	return append(out, t)
}

func align(x, y []*Term) ([]*Term, []*Term) {
	var ox, oy []*Term
	i, j := 0, 0
	var cx, cy *Term
	for {
		if cx == nil {
			if i == len(x) {
				break
			}
			cx = x[i]
			i++
		}
		if cy == nil {
			cy = y[j]
			j++
		}
		if cx.w == cy.w {
			ox, oy = append(ox, cx), append(oy, cy)
			cx, cy = nil, nil
		} else if cx.w > cy.w {
			d := cx.w - cy.w
			ox, oy = append(ox, Extract(cx.w-1, d, cx)), append(oy, cy)
			cx, cy = Extract(d-1, 0, cx), nil
		} else {
			d := cy.w - cx.w
			ox, oy = append(ox, cx), append(oy, Extract(cy.w-1, d, cy))
			cy, cx = Extract(d-1, 0, cy), nil
		}
	}
	return ox, oy
}

func joinSegs(s []*Term) *Term {
	r := s[len(s)-1]
	for i := len(s) - 2; i >= 0; i-- {
		r = Concat(s[i], r)
	}
	return r
}

func isPieces(t *Term) bool { return t.op == OConcat || t.op == OZExt || t.op == OConst }

func BOr(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.val|b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val == maskW(a.w) {
			return b
		}
	}
	if a.op == OConcat || a.op == OZExt || b.op == OConcat || b.op == OZExt {
		sa, sb := align(segs(a, nil), segs(b, nil))
		ok := true
		for i := range sa {
			p, q := sa[i], sb[i]
			switch {
			case p.IsConst() && p.val == 0:
				sa[i] = q
			case q.IsConst() && q.val == 0, p == q:
			case p.IsConst() && q.IsConst():
				sa[i] = Const(p.val|q.val, p.w)
			case p.IsConst() && p.val == maskW(p.w):
			case q.IsConst() && q.val == maskW(p.w):
				sa[i] = q
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok {
			return joinSegs(sa)
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OBOr, a.w, a, b, nil, 0, func(t *Term) {
		t.umin = max(a.umin, b.umin)
		t.umax = maskW(max(bitlen(a.umax), bitlen(b.umax)))
		if t.umax < t.umin {
			t.umax = maskW(t.w)
		}
	})
}

func BAnd(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.val&b.val, a.w)
	}
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.val == 0 {
			return b
		}
		if b.val == maskW(a.w) {
			return a
		}
		// split mask into runs
		var parts []*Term
		runs := 0
		v := b.val
		pos := uint8(0)
		for pos < a.w {
			bit := (v >> pos) & 1
			e := pos
			for e < a.w && (v>>e)&1 == bit {
				e++
			}
			if bit == 1 {
				parts = append(parts, Extract(e-1, pos, a))
			} else {
				parts = append(parts, Const(0, e-pos))
			}
			runs++
			pos = e
		}
		if runs <= 5 {
			r := parts[0]
			for _, p := range parts[1:] {
				r = Concat(p, r)
			}
			return r
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return mk(OBAnd, a.w, a, b, nil, 0, func(t *Term) { t.umin, t.umax = 0, min(a.umax, b.umax) })
}

func BXor(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return Const(a.val^b.val, a.w)
	}
	if a == b {
		return Const(0, a.w)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val == maskW(a.w) {
			return BNot(a)
		}
		if a.op == OBXor && a.b.IsConst() {
			return BXor(a.a, Const(a.b.val^b.val, a.w))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return mk(OBXor, a.w, a, b, nil, 0, func(t *Term) {
		t.umax = maskW(max(bitlen(a.umax), bitlen(b.umax)))
		if t.umax == 0 {
			t.umax = maskW(t.w)
		}
	})
}

// shifts: Go semantics handled by the caller for wide counts; here amount has
// the same width as a and amounts >= w give 0 / sign as in SMT-LIB.
func Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return Const(0, a.w)
		}
		if a.IsConst() {
			return Const(a.val<<b.val, a.w)
		}
		n := uint8(b.val)
		return Concat(Extract(a.w-1-n, 0, a), Const(0, n))
	}
	if a.IsConst() && a.val == 0 {
		return a
	}
	return mk(OShl, a.w, a, b, nil, 0, nil)
}

func LShr(a, b *Term) *Term {
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		if b.val >= uint64(a.w) {
			return Const(0, a.w)
		}
		if a.IsConst() {
			return Const(a.val>>b.val, a.w)
		}
		n := uint8(b.val)
		return ZExt(Extract(a.w-1, n, a), a.w)
	}
	if a.IsConst() && a.val == 0 {
		return a
	}
	return mk(OLShr, a.w, a, b, nil, 0, func(t *Term) { t.umax = a.umax })
}

func AShr(a, b *Term) *Term {
	if a.smin >= 0 {
		return LShr(a, b)
	}
	if b.IsConst() {
		if b.val == 0 {
			return a
		}
		n := b.val
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if a.IsConst() {
			return Const(uint64(a.Int()>>n), a.w)
		}
		return SExt(Extract(a.w-1, uint8(n), a), a.w)
	}
	return mk(OAShr, a.w, a, b, nil, 0, nil)
}

func Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if w > 64 {
		panic(engErr{"concat too wide"})
	}
	if hi.IsConst() && lo.IsConst() {
		return Const(hi.val<<lo.w|lo.val, w)
	}
	if hi.op == OConcat {
		return Concat(hi.a, Concat(hi.b, lo))
	}
	if hi.op == OZExt {
		return Concat(Const(0, hi.w-hi.a.w), Concat(hi.a, lo))
	}
	if hi.IsConst() && hi.val == 0 {
		return ZExt(lo, w)
	}
	// try merging hi with the first piece of lo
	first, rest := lo, (*Term)(nil)
	if lo.op == OConcat {
		first, rest = lo.a, lo.b
	} else if lo.op == OZExt {
		first, rest = Const(0, lo.w-lo.a.w), lo.a
	}
	var m *Term
	if hi.IsConst() && first.IsConst() {
		m = Const(hi.val<<first.w|first.val, hi.w+first.w)
	} else {
		m = mergeExtract(hi, first)
	}
	if m != nil {
		if rest == nil {
			return m
		}
		return Concat(m, rest)
	}
	return mk(OConcat, w, hi, lo, nil, 0, func(t *Term) {
		t.umin = hi.umin<<lo.w | lo.umin
		t.umax = hi.umax<<lo.w | lo.umax
	})
}

func mergeExtract(hi, lo *Term) *Term {
	hb, hh, hl := hi, hi.w-1, uint8(0)
	if hi.op == OExtract {
		hb, hh, hl = hi.a, uint8(hi.val>>8), uint8(hi.val)
	}
	lb, lh, ll := lo, lo.w-1, uint8(0)
	if lo.op == OExtract {
		lb, lh, ll = lo.a, uint8(lo.val>>8), uint8(lo.val)
	}
	if hb == lb && hl == lh+1 {
		return Extract(hh, ll, hb)
	}
	return nil
}

func Extract(hi, lo uint8, t *Term) *Term {
	w := hi - lo + 1
	if w == t.w {
		return t
	}
	switch t.op {
	case OConst:
		return Const(t.val>>lo, w)
	case OExtract:
		l := uint8(t.val)
		return Extract(hi+l, lo+l, t.a)
	case OConcat:
		lw := t.b.w
		if hi < lw {
			return Extract(hi, lo, t.b)
		}
		if lo >= lw {
			return Extract(hi-lw, lo-lw, t.a)
		}
		return Concat(Extract(hi-lw, 0, t.a), Extract(lw-1, lo, t.b))
	case OZExt:
		iw := t.a.w
		if lo >= iw {
			return Const(0, w)
		}
		if hi < iw {
			return Extract(hi, lo, t.a)
		}
		return ZExt(Extract(iw-1, lo, t.a), w)
	case OSExt:
		iw := t.a.w
		if hi < iw {
			return Extract(hi, lo, t.a)
		}
		if lo == 0 {
			return SExt(t.a, w)
		}
	case OIte:
		if t.b.IsConst() || t.c.IsConst() {
			return Ite(t.a, Extract(hi, lo, t.b), Extract(hi, lo, t.c))
		}
	case OBAnd:
		return BAnd(Extract(hi, lo, t.a), Extract(hi, lo, t.b))
	case OBOr:
		return BOr(Extract(hi, lo, t.a), Extract(hi, lo, t.b))
	case OBXor:
		return BXor(Extract(hi, lo, t.a), Extract(hi, lo, t.b))
	case OBNot:
		return BNot(Extract(hi, lo, t.a))
	case OAdd:
		if lo == 0 {
			return Add(Extract(hi, 0, t.a), Extract(hi, 0, t.b))
		}
	case OSub:
		if lo == 0 {
			return Sub(Extract(hi, 0, t.a), Extract(hi, 0, t.b))
		}
	case OMul:
		if lo == 0 {
			return Mul(Extract(hi, 0, t.a), Extract(hi, 0, t.b))
		}
	}
	if lo > 0 && t.umax>>lo == 0 {
		return Const(0, w)
	}
	if lo == 0 && t.umax <= maskW(w) && t.op == OVar && false {
		return t
	}
	return mk(OExtract, w, t, nil, nil, uint64(hi)<<8|uint64(lo), func(r *Term) {
		if lo == 0 && t.umax <= maskW(w) {
			r.umin, r.umax = t.umin, t.umax
		} else if lo > 0 && t.umax>>lo <= maskW(w) {
			r.umin, r.umax = t.umin>>lo, t.umax>>lo
		}
	})
}

func ZExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.IsConst() {
		return Const(t.val, w)
	}
	if t.op == OZExt {
		return ZExt(t.a, w)
	}
	// zext(extract(k..0, x)) == x when x's range fits
	if t.op == OExtract && uint8(t.val) == 0 && t.a.w == w && t.a.umax <= maskW(t.w) {
		return t.a
	}
	return mk(OZExt, w, t, nil, nil, 0, func(r *Term) { r.umin, r.umax = t.umin, t.umax; r.smin, r.smax = int64(t.umin), int64(t.umax) })
}

func SExt(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.IsConst() {
		return Const(uint64(t.Int()), w)
	}
	if t.smin >= 0 {
		return ZExt(t, w)
	}
	if t.op == OSExt {
		return SExt(t.a, w)
	}
	if t.op == OExtract && uint8(t.val) == 0 && t.a.w == w {
		lo, hi := sRange(t.w)
		if t.a.smin >= lo && t.a.smax <= hi {
			return t.a
		}
	}
	return mk(OSExt, w, t, nil, nil, 0, func(r *Term) { r.smin, r.smax = t.smin, t.smax })
}

// ---- models and evaluation ----

// variables returns the variables of t, ordered by id.
func (t *Term) variables() []*Term {
	if t.op == OConst {
		return nil
	}
	if v := t.vset.Load(); v != nil {
		return *v
	}
	var r []*Term
	if t.op == OVar {
		r = []*Term{rawVar(t.name, t.w)} // a ranged variable and its twin are one
	} else {
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			y := x.variables()
			if len(r) == 0 {
				r = y
				continue
			}
			if len(y) == 0 || &y[0] == &r[0] && len(y) == len(r) {
				continue
			}
			z := make([]*Term, 0, len(r)+len(y))
			i, j := 0, 0
			for i < len(r) || j < len(y) {
				switch {
				case j == len(y) || i < len(r) && r[i].id < y[j].id:
					z = append(z, r[i])
					i++
				case i == len(r) || y[j].id < r[i].id:
					z = append(z, y[j])
					j++
				default:
					z = append(z, r[i])
					i++
					j++
				}
			}
			if len(z) == len(r) {
				z = r
			}
			r = z
		}
	}
	t.vset.Store(&r)
	return r
}

type Model struct {
	vals  map[string]uint64
	mu    sync.Mutex
	cache map[*Term]uint64
}

func NewModel(v map[string]uint64) *Model { return &Model{vals: v, cache: map[*Term]uint64{}} }

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.eval(t)
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		v, ok := m.vals[t.name]
		if !ok {
			return t.umin
		}
		return v & maskB(t.w)
	}
	if v, ok := m.cache[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OIte:
		if m.eval(t.a) != 0 {
			r = m.eval(t.b)
		} else {
			r = m.eval(t.c)
		}
	case OAnd:
		r = b2u(m.eval(t.a) != 0 && m.eval(t.b) != 0)
	case OOr:
		r = b2u(m.eval(t.a) != 0 || m.eval(t.b) != 0)
	default:
		x := m.eval(t.a)
		var y uint64
		if t.b != nil {
			y = m.eval(t.b)
		}
		r = evalOp(t, x, y)
	}
	m.cache[t] = r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return maskW(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(t *Term, x, y uint64) uint64 {
	w := t.w
	m := maskB(w)
	aw := t.a.w
	switch t.op {
	case ONot:
		return x ^ 1
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sext64(x, aw) < sext64(y, aw))
	case OSle:
		return b2u(sext64(x, aw) <= sext64(y, aw))
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sext64(x, aw), sext64(y, aw)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return m
		}
		if b == -1 {
			return uint64(-a) & m
		}
		return uint64(a/b) & m
	case OSRem:
		a, b := sext64(x, aw), sext64(y, aw)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x & m
	case ONeg:
		return -x & m
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m
	case OConcat:
		return x<<t.b.w | y
	case OExtract:
		return (x >> (t.val & 0xff)) & m
	case OZExt:
		return x
	case OSExt:
		return uint64(sext64(x, aw)) & m
	}
	panic(engErr{"evalOp " + opName[t.op]})
}

// ---- printing ----

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return strconv.FormatBool(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return t.name
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.val>>8, t.val&0xff)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d+1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func smtConst(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return "(_ bv" + strconv.FormatUint(v, 10) + " " + strconv.Itoa(int(w)) + ")"
}
