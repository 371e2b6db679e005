package main

import (
	"math/big"
	"sort"
)

// Linear reasoning over 64-bit terms: a comparison of two sums whose exact
// integer values fit the type is decided, or reduced, after cancelling the
// summands both sides have.

type linear struct {
	co map[*Term]*big.Int
	k  *big.Int
}

func (l *linear) add(t *Term, c *big.Int, fuel *int) bool {
	if *fuel--; *fuel < 0 {
		return false
	}
	switch {
	case t.IsConst():
		l.k.Add(l.k, new(big.Int).Mul(c, big.NewInt(t.Int())))
		return true
	case t.op == OAdd:
		return l.add(t.a, c, fuel) && l.add(t.b, c, fuel)
	case t.op == OSub:
		return l.add(t.a, c, fuel) && l.add(t.b, new(big.Int).Neg(c), fuel)
	case t.op == ONeg:
		return l.add(t.a, new(big.Int).Neg(c), fuel)
	case t.op == OMul && t.b.IsConst():
		return l.add(t.a, new(big.Int).Mul(c, big.NewInt(t.b.Int())), fuel)
	}
	o := l.co[t]
	if o == nil {
		o = new(big.Int)
		l.co[t] = o
	}
	o.Add(o, c)
	return true
}

var minI64, maxI64 = big.NewInt(-1 << 63), big.NewInt(1<<63 - 1)

func (l *linear) bounds() (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for t, c := range l.co {
		a, b := big.NewInt(t.smin), big.NewInt(t.smax)
		a.Mul(a, c)
		b.Mul(b, c)
		if c.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	return
}

func (l *linear) fits() bool {
	lo, hi := l.bounds()
	return lo.Cmp(minI64) >= 0 && hi.Cmp(maxI64) <= 0
}

func (l *linear) term() *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	s := Const(0, 64)
	for _, t := range ts {
		s = Add(s, Mul(t, Const(uint64(l.co[t].Int64()), 64)))
	}
	return Add(s, Const(uint64(l.k.Int64()), 64))
}

func sum(t *Term) bool {
	return t.op == OAdd || t.op == OSub || t.op == ONeg || t.op == OMul && t.b.IsConst()
}

// cancel decides a < b (a <= b when strict is false) as signed integers by
// cancelling common summands; nil when that does not help.
func cancel(a, b *Term, strict bool) *Term {
	if a.w != 64 || !(sum(a) || sum(b)) || a.IsConst() || b.IsConst() {
		return nil
	}
	la := &linear{map[*Term]*big.Int{}, new(big.Int)}
	lb := &linear{map[*Term]*big.Int{}, new(big.Int)}
	fuel := 64
	if !la.add(a, big.NewInt(1), &fuel) || !lb.add(b, big.NewInt(1), &fuel) {
		return nil
	}
	common := false
	for t := range la.co {
		if lb.co[t] != nil {
			common = true
		}
	}
	if !common || !la.fits() || !lb.fits() {
		return nil
	}
	pos := &linear{map[*Term]*big.Int{}, new(big.Int)} // b - a, split by sign
	neg := &linear{map[*Term]*big.Int{}, new(big.Int)}
	put := func(t *Term, c *big.Int) {
		if c.Sign() > 0 {
			pos.co[t] = c
		} else if c.Sign() < 0 {
			neg.co[t] = new(big.Int).Neg(c)
		}
	}
	for t, c := range lb.co {
		if o := la.co[t]; o != nil {
			c = new(big.Int).Sub(c, o)
		}
		put(t, c)
	}
	for t, c := range la.co {
		if lb.co[t] == nil {
			put(t, new(big.Int).Neg(c))
		}
	}
	k := new(big.Int).Sub(lb.k, la.k)
	if len(pos.co) == 0 || k.Sign() < 0 && len(neg.co) > 0 {
		neg.k.Neg(k)
	} else {
		pos.k.Set(k)
	}
	plo, phi := pos.bounds()
	nlo, nhi := neg.bounds()
	z := 0
	if strict {
		z = 1
	}
	if new(big.Int).Sub(plo, nhi).Cmp(big.NewInt(int64(z))) >= 0 {
		return tTrue
	}
	if new(big.Int).Sub(phi, nlo).Cmp(big.NewInt(int64(z))) < 0 {
		return tFalse
	}
	if !pos.fits() || !neg.fits() {
		return nil
	}
	if strict {
		return Slt(neg.term(), pos.term())
	}
	return Sle(neg.term(), pos.term())
}
