package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(c *callCtx)

// shimTable redirects standard functions to Go models in package zzvnd.
var shimTable = map[string]string{
	"encoding/binary.Write": "BinaryWrite",
	"encoding/binary.Read":  "BinaryRead",
	"encoding/binary.Size":  "BinarySize",
	"errors.Is":             "ErrorsIs",
	"errors.As":             "ErrorsAs",
	"fmt.Sprintf":           "Sprintf",
	"fmt.Errorf":            "Errorf",
	"fmt.Sprint":            "Sprint",
	"fmt.Sprintln":          "Sprintln",
	"fmt.Fprintf":           "Fprintf",
	"fmt.Fprint":            "Fprint",
	"fmt.Fprintln":          "Fprintln",
	"fmt.Printf":            "Printf",
	"fmt.Println":           "Println",
	"fmt.Print":             "Print",
	"(time.Time).Sub":       "TimeSub",
}

// RVal is a reflect.Value.
type RVal struct {
	v Value
	t types.Type
}

var intrTable map[string]intrinsic

const vndP = modPath + "/zzvnd."

func (e *Engine) shim(name string) *ssa.Function {
	f := e.shimPkg.Func(name)
	if f == nil {
		panic(engErr{"shim " + name + " missing"})
	}
	return f
}

func (c *callCtx) push(f *ssa.Function, args []Value) {
	c.m.pushFrame(&Closure{fn: f}, args, fkNormal, c.cont)
}

func (e *Engine) lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrTable[name]; ok {
		return f
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if strings.HasPrefix(pkg, "go.uber.org/zap") && fn.Synthetic != "package initializer" {
		if strings.Contains(name, "AtomicLevel") || strings.Contains(name, "zapcore.Level)") {
			return nil
		}
		switch fn.Name() {
		case "Fatal":
			return func(c *callCtx) { c.push(c.m.eng.zzw("ZapFatal"), nil) }
		case "Panic", "DPanic":
			if fn.Signature.Recv() != nil && fn.Name() == "Panic" {
				return func(c *callCtx) { c.push(c.m.eng.shim("PanicLog"), []Value{c.args[1]}) }
			}
		}
		return noop
	}
	if pkg == "internal/godebug" || pkg == "internal/race" || pkg == "internal/msan" || pkg == "internal/asan" {
		return noop
	}
	return nil
}

func (e *Engine) zzw(name string) *ssa.Function {
	p := e.prog.ImportedPackage(modPath + "/zzw")
	if p == nil || p.Func(name) == nil {
		panic(engErr{"world function " + name + " missing"})
	}
	return p.Func(name)
}

// noop returns zero results.
func noop(c *callCtx) {
	r := c.fn.Signature.Results()
	switch r.Len() {
	case 0:
		c.ret(Tuple{})
	case 1:
		c.ret(zero(r.At(0).Type()))
	default:
		c.ret(zero(r))
	}
}

func constArg(v Value) (string, bool) {
	s, ok := v.(Str)
	if ok && s.isC {
		return s.conc, true
	}
	return "", false
}

func (c *callCtx) label(i int) string {
	s, ok := c.m.concStr(c.args[i].(Str))
	if !ok {
		c.m.unsupported("symbolic label")
	}
	return s
}

func (m *Machine) inputKey(l string) string {
	k := l + "#" + strconv.Itoa(m.st.occ[l])
	if m.st.occ["~"+l] > 0 {
		m.unsupported("input label %q is used for a choice and a value", l)
	}
	m.st.occ[l]++
	return k
}

func (c *callCtx) intArg(i int) int { return int(c.m.concInt(c.args[i].(*Term))) }

func tm(v Value) *Term { return v.(*Term) }

func scalarInput(w uint8) intrinsic {
	return func(c *callCtx) {
		l := c.label(0)
		c.ret(c.m.newVar(c.m.inputKey(l), w, 0, maskW(w)))
	}
}

func (m *Machine) atomicPtr(c *callCtx) *Ptr {
	p, ok := c.args[0].(*Ptr)
	if !ok || p == nil {
		m.unsupported("atomic on %T", c.args[0])
	}
	return p
}

// ownAtomic reports whether the code under test, and not a library, performs
// the current atomic operation.
func (m *Machine) ownAtomic() bool {
	for i := len(m.g.frames) - 1; i >= 0; i-- {
		fn := m.g.frames[i].fi.fn
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		pkg := ""
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = fn.Object().Pkg().Path()
		}
		if pkg != "sync/atomic" && pkg != "" {
			return strings.HasPrefix(pkg, modPath)
		}
	}
	return false
}

// atomicOp: returns false when the goroutine must wait to be scheduled.
func (m *Machine) atomicOp(p *Ptr) bool {
	if m.st.flags["atomics"] > 0 && m.ownAtomic() {
		if !m.visible("atomic", p.key()) {
			return false
		}
	}
	m.hbAcqRel(p.key())
	return true
}

func init() {
	t := map[string]intrinsic{}
	intrTable = t
	// ---- verification primitives ----
	t[vndP+"Symbolic"] = func(c *callCtx) { c.ret(tTrue) }
	t[vndP+"Deep"] = func(c *callCtx) { c.ret(Bool(c.m.eng.deep)) }
	t[vndP+"Bool"] = func(c *callCtx) {
		c.ret(c.m.newVar(c.m.inputKey(c.label(0)), 0, 0, 1))
	}
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I32": 32, "I64": 64} {
		t[vndP+n] = scalarInput(w)
	}
	t[vndP+"Int"] = func(c *callCtx) {
		lo, hi := c.intArg(1), c.intArg(2)
		c.ret(c.m.newVar(c.m.inputKey(c.label(0)), 64, uint64(lo), uint64(hi)))
	}
	t[vndP+"Range64"] = func(c *callCtx) {
		lo, hi := int64(c.intArg(1)), int64(c.intArg(2))
		v := c.m.newVar(c.m.inputKey(c.label(0)), 64, 0, uint64(hi-lo))
		c.ret(Add(v, Const(uint64(lo), 64)))
	}
	t[vndP+"Choice"] = func(c *callCtx) {
		n := c.intArg(1)
		k := c.m.choose(n, c.label(0))
		c.ret(Const(uint64(k), 64))
	}
	fill := func(m *Machine, l string, n int) []*Term {
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = m.newVar(m.inputKey(l), 8, 0, 255)
		}
		return ts
	}
	t[vndP+"Bytes"] = func(c *callCtx) {
		n := c.intArg(1)
		c.ret(c.m.newByteSlice(fill(c.m, c.label(0), n)))
	}
	t[vndP+"Str"] = func(c *callCtx) {
		n := c.intArg(1)
		c.ret(mkStr(fill(c.m, c.label(0), n)))
	}
	t[vndP+"Fill"] = func(c *callCtx) {
		s := c.args[1].(Slice)
		ts := fill(c.m, c.label(0), s.len)
		vs := make([]Value, len(ts))
		for i := range ts {
			vs[i] = ts[i]
		}
		c.m.writeArrSafe(s, vs)
		c.ret(Tuple{})
	}
	t[vndP+"Assume"] = func(c *callCtx) { c.m.assume(tm(c.args[0])); c.ret(Tuple{}) }
	t[vndP+"Assert"] = func(c *callCtx) {
		c.m.assertTerm(tm(c.args[0]), "assert", c.label(1))
		c.ret(Tuple{})
	}
	t[vndP+"Fail"] = func(c *callCtx) { c.m.assertTerm(tFalse, "assert", c.label(0)) }
	t[vndP+"Reach"] = func(c *callCtx) { c.m.st.reach[c.label(0)] = true; c.ret(Tuple{}) }
	t[vndP+"And"] = func(c *callCtx) { c.ret(And(tm(c.args[0]), tm(c.args[1]))) }
	t[vndP+"Or"] = func(c *callCtx) { c.ret(Or(tm(c.args[0]), tm(c.args[1]))) }
	t[vndP+"Imp"] = func(c *callCtx) { c.ret(Or(Not(tm(c.args[0])), tm(c.args[1]))) }
	t[vndP+"Iff"] = func(c *callCtx) { c.ret(Eq(tm(c.args[0]), tm(c.args[1]))) }
	t[vndP+"IteInt"] = func(c *callCtx) { c.ret(Ite(tm(c.args[0]), tm(c.args[1]), tm(c.args[2]))) }
	t[vndP+"B2I"] = func(c *callCtx) { c.ret(Ite(tm(c.args[0]), Const(1, 64), Const(0, 64))) }
	t[vndP+"EqBytes"] = func(c *callCtx) {
		a, b := c.args[0].(Slice), c.args[1].(Slice)
		if a.len != b.len {
			c.ret(tFalse)
			return
		}
		x, y := c.m.sliceBytes(a), c.m.sliceBytes(b)
		r := tTrue
		for i := range x {
			r = And(r, Eq(x[i], y[i]))
		}
		c.ret(r)
	}
	t[vndP+"EqStr"] = func(c *callCtx) { c.ret(c.m.strEq(c.args[0].(Str), c.args[1].(Str))) }
	t[vndP+"Concrete"] = func(c *callCtx) { v := c.m.concInt(tm(c.args[0])); c.ret(Const(uint64(v), 64)) }
	t[vndP+"Flag"] = func(c *callCtx) { c.m.st.flags[c.label(0)] = c.intArg(1); c.ret(Tuple{}) }
	t[vndP+"AllocLimit"] = func(c *callCtx) { atomic.StoreInt64(&c.m.run.allocLimit, int64(c.intArg(0))); c.ret(Tuple{}) }
	t[vndP+"RaceOff"] = func(c *callCtx) { c.m.st.flags["norace"]++; c.ret(Tuple{}) }
	t[vndP+"RaceOn"] = func(c *callCtx) { c.m.st.flags["norace"]--; c.ret(Tuple{}) }
	t[vndP+"HB"] = func(c *callCtx) {
		if i, ok := c.args[0].(Iface); ok {
			if p, ok := i.val.(*Ptr); ok && p != nil {
				c.m.hbAcqRel("item" + p.key())
			}
			if s, ok := i.val.(Slice); ok && s.arr != nil {
				c.m.hbAcqRel("item" + s.arr.key())
			}
		}
		c.ret(Tuple{})
	}
	t[vndP+"Step"] = func(c *callCtx) {
		if c.m.st.flags[c.label(0)] > 0 && !c.m.visible("step", "") {
			return
		}
		c.ret(Tuple{})
	}
	t[vndP+"Observe"] = func(c *callCtx) {
		l := c.label(0)
		i := c.args[1].(Iface)
		var o Obs
		o.label = l
		switch v := i.val.(type) {
		case *Term:
			o.kind = "int"
			_, s, _ := basicInfo(i.typ)
			if v.w == 0 {
				v = Ite(v, Const(1, 64), Const(0, 64))
			}
			w, _, _ := basicInfo(i.typ)
			if s && w == 64 {
				o.terms = []*Term{v}
			} else {
				o.terms = []*Term{intConv(v, 64, false)}
			}
		case Str:
			o.terms = c.m.strTerms(v)
		case Slice:
			o.terms = c.m.sliceBytes(v)
		default:
			c.m.unsupported("observe %T", v)
		}
		c.m.st.obs = append(c.m.st.obs, o)
		c.ret(Tuple{})
	}
	t[vndP+"Par"] = func(c *callCtx) {
		m := c.m
		g := m.g
		if g.parWait != nil {
			g.parWait = nil
			m.st.parOn--
			if m.st.parOn == 0 {
				// goroutines started inside go on as ordinary ones
				for _, o := range m.st.gs {
					o.atVis = false
				}
			}
			c.ret(Tuple{})
			return
		}
		fs := c.args[0].(Slice)
		es := m.sliceElems(fs)
		if len(es) == 0 {
			c.ret(Tuple{})
			return
		}
		m.st.parOn++
		m.st.parSeq++
		var ids []int
		for i, f := range es {
			ng := m.spawn(f.(*Closure), nil, m.st.parSeq)
			ng.parIdx = i + 1
			ids = append(ids, ng.id)
		}
		g.parWait = ids
		m.block("par")
	}
	t[vndP+"Settle"] = func(c *callCtx) {
		m := c.m
		for _, g := range m.st.gs {
			if g != m.g && g.status == gRun {
				m.st.cur = g.id
				m.jumped = true
				return
			}
		}
		c.ret(Tuple{})
	}
	t[vndP+"Log"] = func(c *callCtx) {
		c.m.st.trace = append(c.m.st.trace, c.label(0))
		c.ret(Tuple{})
	}
	t[vndP+"Opaque"] = func(c *callCtx) {
		m := c.m
		i := c.args[0].(Iface)
		v := m.deepCopy(i.val, 0)
		p := m.alloc(&Agg{gen: m.st.gen, elems: []Value{Iface{typ: i.typ, val: v}}}, nil)
		// the token's identity is its heap object
		s := fmt.Sprintf("\x03GOB%08d", p.obj)
		c.ret(m.newByteSlice(m.strTerms(cstr(s))))
	}
	t[vndP+"Unopaque"] = func(c *callCtx) {
		m := c.m
		bs := m.sliceBytes(c.args[0].(Slice))
		if len(bs) != 12 {
			c.ret(tFalse)
			return
		}
		s, ok := m.concStr(mkStr(bs))
		if !ok || !strings.HasPrefix(s, "\x03GOB") {
			c.ret(tFalse)
			return
		}
		id, err := strconv.Atoi(strings.TrimLeft(s[4:], "0"))
		if err != nil || id < m.nbase || id >= m.nbase+len(m.st.objs) {
			c.ret(tFalse)
			return
		}
		a, ok := m.getObj(id).root.(*Agg)
		if !ok || len(a.elems) != 1 {
			c.ret(tFalse)
			return
		}
		src := a.elems[0].(Iface)
		dst := c.args[1].(Iface)
		pt, ok := dst.typ.Underlying().(*types.Pointer)
		if !ok {
			c.ret(tFalse)
			return
		}
		st, sv := src.typ, src.val
		if sp, ok := st.Underlying().(*types.Pointer); ok {
			st = sp.Elem()
			sv = m.loadRaw(sv.(*Ptr))
		}
		if !types.Identical(st, pt.Elem()) {
			c.ret(tFalse)
			return
		}
		m.storeRaw(dst.val.(*Ptr), m.deepCopy(sv, 0))
		c.ret(tTrue)
	}
	// ---- shim helpers ----
	t[vndP+"Unsupported"] = func(c *callCtx) { c.m.unsupported("no model of %s", c.label(0)) }
	t[vndP+"vUnsupported"] = func(c *callCtx) { c.m.unsupported("%s", c.label(0)) }
	t[vndP+"vComparable"] = func(c *callCtx) {
		i := c.args[0].(Iface)
		c.ret(Bool(i.typ != nil && types.Comparable(i.typ)))
	}
	t[vndP+"vAsAssign"] = func(c *callCtx) {
		err, tgt := c.args[0].(Iface), c.args[1].(Iface)
		pt, ok := tgt.typ.Underlying().(*types.Pointer)
		if !ok {
			c.m.unsupported("errors.As target")
		}
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if c.m.eng.implements(err.typ, it) {
				c.m.storeRaw(tgt.val.(*Ptr), err)
				c.ret(tTrue)
				return
			}
		} else if types.Identical(err.typ, pt.Elem()) {
			c.m.storeRaw(tgt.val.(*Ptr), err.val)
			c.ret(tTrue)
			return
		}
		c.ret(tFalse)
	}
	t[vndP+"vIsBig"] = func(c *callCtx) {
		i := c.args[0].(Iface)
		if i.typ == nil {
			c.m.unsupported("nil byte order")
		}
		c.ret(Bool(strings.Contains(i.typ.String(), "bigEndian")))
	}
	t[vndP+"vTypeName"] = func(c *callCtx) {
		i := c.args[0].(Iface)
		if i.typ == nil {
			c.ret(cstr("nil"))
			return
		}
		c.ret(cstr(i.typ.String()))
	}
	t[vndP+"vSize"] = func(c *callCtx) {
		i := c.args[0].(Iface)
		n := -1
		if i.typ != nil {
			v, ty := c.m.binTarget(i)
			n = c.m.binSize(v, ty)
		}
		c.ret(Const(uint64(int64(n)), 64))
	}
	t[vndP+"vEncode"] = func(c *callCtx) {
		big := tm(c.args[0]) == tTrue
		i := c.args[1].(Iface)
		if i.typ == nil {
			c.ret(Tuple{Slice{}, tFalse})
			return
		}
		v, ty := c.m.binTarget(i)
		if c.m.binSize(v, ty) < 0 {
			c.ret(Tuple{Slice{}, tFalse})
			return
		}
		out := c.m.binEncode(big, v, ty, nil)
		c.ret(Tuple{c.m.newByteSlice(out), tTrue})
	}
	t[vndP+"vDecode"] = func(c *callCtx) {
		m := c.m
		big := tm(c.args[0]) == tTrue
		bs := m.sliceBytes(c.args[1].(Slice))
		i := c.args[2].(Iface)
		switch u := i.typ.Underlying().(type) {
		case *types.Pointer:
			p := i.val.(*Ptr)
			if sl, ok := u.Elem().Underlying().(*types.Slice); ok {
				s := m.loadRaw(p).(Slice)
				m.binDecodeSlice(big, bs, s, sl.Elem())
			} else {
				v, _ := m.binDecode(big, bs, u.Elem(), m.loadRaw(p))
				m.access(p, true)
				m.storeRaw(p, v)
			}
		case *types.Slice:
			m.binDecodeSlice(big, bs, i.val.(Slice), u.Elem())
		default:
			m.unsupported("binary.Read into %s", i.typ)
		}
		c.ret(Tuple{})
	}
	t[vndP+"vBasic"] = func(c *callCtx) {
		i := c.args[0].(Iface)
		r := Tuple{Const(0, 64), Const(0, 64), Const(0, 64), cstr(""), tFalse}
		switch v := i.val.(type) {
		case *Term:
			_, s, ok := basicInfo(i.typ)
			if ok {
				switch {
				case v.w == 0:
					r[0], r[4] = Const(4, 64), v
				case s:
					r[0], r[1] = Const(1, 64), intConv(v, 64, true)
				default:
					r[0], r[2] = Const(2, 64), intConv(v, 64, false)
				}
			}
		case Str:
			r[0], r[3] = Const(3, 64), v
		}
		c.ret(r)
	}
	t[vndP+"vDigits"] = func(c *callCtx) {
		m := c.m
		u := tm(c.args[0])
		n := c.intArg(1)
		if u.IsConst() {
			s := strconv.FormatUint(u.val, 10)
			c.ret(m.newByteSlice(m.strTerms(cstr(s))))
			return
		}
		for d := m.st.digits; d != nil; d = d.next {
			if d.u == u && len(d.ts) == n {
				c.ret(m.newByteSlice(append([]*Term{}, d.ts...)))
				return
			}
		}
		ev := m.st.model.Eval(u)
		id := m.st.occ["~dig"]
		m.st.occ["~dig"]++
		ts := make([]*Term, n)
		var sum *Term = Const(0, 64)
		mod := map[string]uint64{}
		for k, v := range m.st.model.vals {
			mod[k] = v
		}
		for k := n - 1; k >= 0; k-- {
			name := fmt.Sprintf("~d%d.%d.%d", id, n, k)
			hi := uint64(9)
			if n == 20 && k == 0 {
				hi = 1
			}
			d := Var(name, 8, 0, hi)
			m.st.vars = append(m.st.vars, d)
			m.st.pc = m.st.pc.push(Not(mk(OUlt, 0, Const(hi, 8), rawVar(name, 8), nil, 0, nil)))
			mod[name] = ev % 10
			ev /= 10
			ts[k] = d
		}
		for k := 0; k < n; k++ {
			sum = Add(Mul(sum, Const(10, 64)), ZExt(ts[k], 64))
		}
		m.st.model = NewModel(mod)
		m.st.pc = m.st.pc.push(Eq(sum, u))
		for k := range ts {
			ts[k] = Add(ts[k], Const('0', 8))
		}
		m.st.digits = &digitNode{u: u, ts: append([]*Term{}, ts...), next: m.st.digits}
		c.ret(m.newByteSlice(ts))
	}

	// ---- sync ----
	key := func(c *callCtx) (string, bool) {
		p := c.args[0].(*Ptr)
		if p == nil {
			c.m.nilDeref()
			return "", false
		}
		return p.key(), true
	}
	lockf := func(f func(m *Machine, c *callCtx, k string)) intrinsic {
		return func(c *callCtx) {
			if k, ok := key(c); ok {
				f(c.m, c, k)
			}
		}
	}
	t["(*sync.Mutex).Lock"] = lockf((*Machine).doLock)
	t["(*sync.Mutex).Unlock"] = lockf((*Machine).doUnlock)
	t["(*sync.RWMutex).Lock"] = lockf((*Machine).doLock)
	t["(*sync.RWMutex).Unlock"] = lockf((*Machine).doUnlock)
	t["(*sync.RWMutex).RLock"] = lockf((*Machine).doRLock)
	t["(*sync.RWMutex).RUnlock"] = lockf((*Machine).doRUnlock)
	t["(*sync.Mutex).TryLock"] = func(c *callCtx) {
		k, ok := key(c)
		if !ok {
			return
		}
		if !c.m.visible("trylock", k) {
			return
		}
		ls := c.m.lockState(k)
		if ls.writer == 0 && nReaders(ls) == 0 && ls.pending == 0 {
			ls.writer = c.m.g.id + 1
			c.m.g.vc = c.m.g.vc.join(ls.vc).join(ls.rvc)
			c.ret(tTrue)
			return
		}
		c.ret(tFalse)
	}
	t["(*sync.RWMutex).TryLock"] = t["(*sync.Mutex).TryLock"]
	t["(*sync.RWMutex).TryRLock"] = func(c *callCtx) {
		k, ok := key(c)
		if !ok {
			return
		}
		if !c.m.visible("trylock", k) {
			return
		}
		ls := c.m.lockState(k)
		if ls.writer == 0 && ls.pending == 0 {
			ls.readers[c.m.g.id]++
			c.m.g.vc = c.m.g.vc.join(ls.vc)
			c.ret(tTrue)
			return
		}
		c.ret(tFalse)
	}
	t["(*sync.WaitGroup).Add"] = func(c *callCtx) {
		k, ok := key(c)
		if !ok {
			return
		}
		n := c.intArg(1)
		c.m.wgAdd(c, k, n)
	}
	t["(*sync.WaitGroup).Done"] = func(c *callCtx) {
		if k, ok := key(c); ok {
			c.m.wgAdd(c, k, -1)
		}
	}
	t["(*sync.WaitGroup).Wait"] = func(c *callCtx) {
		k, ok := key(c)
		if !ok {
			return
		}
		if c.m.st.flags["wg:"+k] > 0 {
			c.m.g.waitKey = "wg:" + k
			c.m.block("WaitGroup.Wait")
			return
		}
		c.m.hbAcqRel("wg:" + k)
		c.ret(Tuple{})
	}
	t["sync.runtime_registerPoolCleanup"] = noop
	t["sync.init"] = nil
	delete(t, "sync.init")
	t["sync.fatal"] = func(c *callCtx) {
		c.m.run.failure(c.m, "panic", "fatal error: "+c.label(0)+c.m.where(), c.m.st.model)
		panic(pathEnd{"crash"})
	}
	t["sync.throw"] = t["sync.fatal"]
	t["sync.runtime_notifyListCheck"] = noop

	// ---- atomics ----
	load := func(c *callCtx) {
		p := c.m.atomicPtr(c)
		if !c.m.atomicOp(p) {
			return
		}
		c.ret(c.m.loadRaw(p))
	}
	store := func(c *callCtx) {
		p := c.m.atomicPtr(c)
		if !c.m.atomicOp(p) {
			return
		}
		c.m.storeRaw(p, c.args[1])
		c.ret(Tuple{})
	}
	add := func(c *callCtx) {
		p := c.m.atomicPtr(c)
		if !c.m.atomicOp(p) {
			return
		}
		n := Add(c.m.loadRaw(p).(*Term), tm(c.args[1]))
		c.m.storeRaw(p, n)
		c.ret(n)
	}
	swap := func(c *callCtx) {
		p := c.m.atomicPtr(c)
		if !c.m.atomicOp(p) {
			return
		}
		o := c.m.loadRaw(p)
		c.m.storeRaw(p, c.args[1])
		c.ret(o)
	}
	cas := func(c *callCtx) {
		p := c.m.atomicPtr(c)
		eq := c.m.equal(c.m.loadRaw(p), c.args[1])
		if !eq.IsConst() {
			v := c.m.decide(eq)
			eq = Bool(v)
		}
		if !c.m.atomicOp(p) {
			return
		}
		if eq == tTrue {
			c.m.storeRaw(p, c.args[2])
		}
		c.ret(eq)
	}
	bitop := func(f func(a, b *Term) *Term) intrinsic {
		return func(c *callCtx) {
			p := c.m.atomicPtr(c)
			if !c.m.atomicOp(p) {
				return
			}
			o := c.m.loadRaw(p).(*Term)
			c.m.storeRaw(p, f(o, tm(c.args[1])))
			c.ret(o)
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		t["sync/atomic.Load"+ty] = load
		t["sync/atomic.Store"+ty] = store
		t["sync/atomic.Swap"+ty] = swap
		t["sync/atomic.CompareAndSwap"+ty] = cas
		t["sync/atomic.Add"+ty] = add
		t["sync/atomic.And"+ty] = bitop(BAnd)
		t["sync/atomic.Or"+ty] = bitop(BOr)
	}
	t["(*sync/atomic.Value).Load"] = func(c *callCtx) {
		p := c.m.atomicPtr(c).elem(0)
		c.ret(c.m.loadRaw(p))
	}
	t["(*sync/atomic.Value).Store"] = func(c *callCtx) {
		p := c.m.atomicPtr(c).elem(0)
		c.m.storeRaw(p, c.args[1])
		c.ret(Tuple{})
	}

	// ---- runtime ----
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.Callers", "runtime.FuncForPC", "runtime.Stack",
		"runtime.CallersFrames", "runtime.Caller", "internal/runtime/sys.GetCallerPC", "internal/runtime/sys.GetCallerSP", "os.runtime_args",
		"runtime/debug.SetGCPercent", "runtime/debug.FreeOSMemory", "runtime.LockOSThread", "runtime.ReadMemStats", "syscall.runtimeSetenv", "syscall.runtime_envs"} {
		t[n] = noop
	}
	t["runtime.NumGoroutine"] = func(c *callCtx) { c.ret(Const(4, 64)) }
	t["runtime.GOMAXPROCS"] = func(c *callCtx) { c.ret(Const(8, 64)) }
	t["runtime.NumCPU"] = func(c *callCtx) { c.ret(Const(8, 64)) }
	t["runtime.Gosched"] = func(c *callCtx) {
		c.ret(Tuple{})
		n := len(c.m.st.gs)
		for k := 1; k < n; k++ {
			g := c.m.st.gs[(c.m.g.id+k)%n]
			if g.status == gRun {
				c.m.st.cur = g.id
				c.m.jumped = true
				return
			}
		}
	}

	// ---- internal/bytealg ----
	t["internal/bytealg.MakeNoZero"] = func(c *callCtx) {
		n := c.intArg(0)
		ts := make([]*Term, n)
		z := Const(0, 8)
		for i := range ts {
			ts[i] = z
		}
		c.ret(c.m.newByteSlice(ts))
	}
	bytesOf := func(m *Machine, v Value) []*Term {
		switch x := v.(type) {
		case Slice:
			return m.sliceBytes(x)
		case Str:
			return m.strTerms(x)
		}
		m.unsupported("bytes of %T", v)
		return nil
	}
	idxByte := func(c *callCtx) {
		bs := bytesOf(c.m, c.args[0])
		b := tm(c.args[1])
		for i := range bs {
			if c.m.decide(Eq(bs[i], b)) {
				c.ret(Const(uint64(i), 64))
				return
			}
		}
		c.ret(Const(math.MaxUint64, 64))
	}
	t["internal/bytealg.IndexByte"] = idxByte
	t["internal/bytealg.IndexByteString"] = idxByte
	lastIdx := func(c *callCtx) {
		bs := bytesOf(c.m, c.args[0])
		b := tm(c.args[1])
		for i := len(bs) - 1; i >= 0; i-- {
			if c.m.decide(Eq(bs[i], b)) {
				c.ret(Const(uint64(i), 64))
				return
			}
		}
		c.ret(Const(math.MaxUint64, 64))
	}
	t["internal/bytealg.LastIndexByte"] = lastIdx
	t["internal/bytealg.LastIndexByteString"] = lastIdx
	index := func(c *callCtx) {
		a, b := bytesOf(c.m, c.args[0]), bytesOf(c.m, c.args[1])
		for i := 0; i+len(b) <= len(a); i++ {
			eq := tTrue
			for k := range b {
				eq = And(eq, Eq(a[i+k], b[k]))
				if eq == tFalse {
					break
				}
			}
			if c.m.decide(eq) {
				c.ret(Const(uint64(i), 64))
				return
			}
		}
		c.ret(Const(math.MaxUint64, 64))
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "bytes.Index", "strings.Index", "internal/stringslite.Index"} {
		t[n] = index
	}
	// A count is a term, not a fork.
	count := func(c *callCtx) {
		bs := bytesOf(c.m, c.args[0])
		b := tm(c.args[1])
		r := Const(0, 64)
		for i := range bs {
			r = Add(r, Ite(Eq(bs[i], b), Const(1, 64), Const(0, 64)))
		}
		c.ret(r)
	}
	t["internal/bytealg.Count"] = count
	t["internal/bytealg.CountString"] = count
	t["internal/bytealg.Equal"] = func(c *callCtx) { c.ret(c.m.strEq(mkStr(bytesOf(c.m, c.args[0])), mkStr(bytesOf(c.m, c.args[1])))) }
	t["bytes.Equal"] = t["internal/bytealg.Equal"]
	cmp := func(c *callCtx) {
		a, b := mkStr(bytesOf(c.m, c.args[0])), mkStr(bytesOf(c.m, c.args[1]))
		lt, eq := c.m.strLess(a, b), c.m.strEq(a, b)
		c.ret(Ite(eq, Const(0, 64), Ite(lt, Const(math.MaxUint64, 64), Const(1, 64))))
	}
	t["internal/bytealg.Compare"] = cmp
	t["internal/bytealg.CompareString"] = cmp
	t["internal/bytealg.abigen_runtime_memequal"] = noop

	// ---- strconv ----
	sym := func(shim string, f func(c *callCtx) (Value, bool)) intrinsic {
		return func(c *callCtx) {
			if v, ok := f(c); ok {
				c.ret(v)
				return
			}
			c.push(c.m.eng.shim(shim), c.args)
		}
	}
	t["strconv.FormatInt"] = sym("FormatInt", func(c *callCtx) (Value, bool) {
		a, b := tm(c.args[0]), tm(c.args[1])
		if a.IsConst() && b.IsConst() {
			return cstr(strconv.FormatInt(a.Int(), int(b.Int()))), true
		}
		return nil, false
	})
	t["strconv.FormatUint"] = sym("FormatUint", func(c *callCtx) (Value, bool) {
		a, b := tm(c.args[0]), tm(c.args[1])
		if a.IsConst() && b.IsConst() {
			return cstr(strconv.FormatUint(a.val, int(b.Int()))), true
		}
		return nil, false
	})
	t["strconv.Itoa"] = sym("Itoa", func(c *callCtx) (Value, bool) {
		a := tm(c.args[0])
		if a.IsConst() {
			return cstr(strconv.FormatInt(a.Int(), 10)), true
		}
		return nil, false
	})
	appendNum := func(shim string, signed bool) intrinsic {
		return func(c *callCtx) {
			a, b := tm(c.args[1]), tm(c.args[2])
			if a.IsConst() && b.IsConst() {
				s := strconv.FormatUint(a.val, int(b.Int()))
				if signed {
					s = strconv.FormatInt(a.Int(), int(b.Int()))
				}
				c.ret(c.m.appendOp(c.args[0], cstr(s), types.NewSlice(types.Typ[types.Uint8])))
				return
			}
			c.push(c.m.eng.shim(shim), c.args)
		}
	}
	t["strconv.AppendInt"] = appendNum("AppendInt", true)
	t["strconv.AppendUint"] = appendNum("AppendUint", false)
	t["strconv.Quote"] = func(c *callCtx) {
		if s, ok := c.m.concStr(c.args[0].(Str)); ok {
			c.ret(cstr(strconv.Quote(s)))
			return
		}
		c.m.run.noteOnce("quoted text of symbolic strings is not modelled")
		c.ret(cstr("\"?\""))
	}

	// ---- math ----
	t["math.Float64bits"] = func(c *callCtx) {
		f := c.args[0].(Float)
		if f.t != nil {
			c.m.unsupported("bits of symbolic float")
		}
		c.ret(Const(math.Float64bits(f.f), 64))
	}
	t["math.Float64frombits"] = func(c *callCtx) {
		x := tm(c.args[0])
		if !x.IsConst() {
			c.m.unsupported("symbolic float bits")
		}
		c.ret(Float{f: math.Float64frombits(x.val), w: 64})
	}
	t["math.Float32bits"] = func(c *callCtx) { c.ret(Const(uint64(math.Float32bits(float32(c.args[0].(Float).f))), 32)) }
	t["math.Float32frombits"] = func(c *callCtx) {
		c.ret(Float{f: float64(math.Float32frombits(uint32(tm(c.args[0]).val))), w: 32})
	}
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Abs": math.Abs, "Round": math.Round} {
		f := f
		n := n
		t["math."+n] = func(c *callCtx) {
			x := c.args[0].(Float)
			if x.t != nil {
				if n == "Sqrt" || n == "Abs" {
					c.m.unsupported("math." + n)
				}
				c.ret(x) // integral already
				return
			}
			c.ret(Float{f: f(x.f), w: 64})
		}
	}
	t["math/bits.Mul64"] = func(c *callCtx) {
		a, b := tm(c.args[0]), tm(c.args[1])
		if a.IsConst() && b.IsConst() {
			h, l := bits.Mul64(a.val, b.val)
			c.ret(Tuple{Const(h, 64), Const(l, 64)})
			return
		}
		c.m.pushFrameRaw(c)
	}

	// ---- unique ----
	t["unique.Make"] = func(c *callCtx) {
		m := c.m
		v := c.args[0]
		k, ok := m.concKey(v)
		if !ok {
			m.unsupported("unique.Make of a symbolic value")
		}
		ty := c.fn.Signature.Params().At(0).Type()
		k = ty.String() + "|" + k
		e := m.eng
		e.uniqMu.Lock()
		id, ok := e.uniq[k]
		if !ok {
			e.uniqObjs = append(e.uniqObjs, &Obj{root: m.freezeDeep(v), typ: ty})
			id = -len(e.uniqObjs)
			e.uniq[k] = id
		}
		e.uniqMu.Unlock()
		c.ret(&Agg{elems: []Value{&Ptr{obj: id}}})
	}

	// ---- time ----
	t["time.runtimeNano"] = func(c *callCtx) { c.ret(Const(1, 64)) }
	t["time.runtimeNow"] = noop
	t["time.now"] = func(c *callCtx) { c.ret(Tuple{Const(1700000000, 64), Const(0, 32), Const(1, 64)}) }

	// ---- expvar ----
	t["expvar.Publish"] = noop
	t["internal/godebug.New"] = noop

	// ---- reflect (what bencoding.Any uses) ----
	t["reflect.ValueOf"] = func(c *callCtx) {
		i := c.args[0].(Iface)
		c.ret(RVal{i.val, i.typ})
	}
	t["(reflect.Value).Len"] = func(c *callCtx) {
		switch v := c.args[0].(RVal).v.(type) {
		case Slice:
			c.ret(Const(uint64(v.len), 64))
		case Str:
			c.ret(Const(uint64(v.n), 64))
		default:
			c.m.unsupported("reflect Len of %T", v)
		}
	}
	t["(reflect.Value).Index"] = func(c *callCtx) {
		r := c.args[0].(RVal)
		s, ok := r.v.(Slice)
		if !ok {
			c.m.unsupported("reflect Index")
		}
		k := c.intArg(1)
		if k < 0 || k >= s.len {
			c.m.rtPanicPlain("reflect: slice index out of range")
			return
		}
		c.ret(RVal{c.m.sliceElems(s)[k], r.t.Underlying().(*types.Slice).Elem()})
	}
	t["(reflect.Value).String"] = func(c *callCtx) {
		if s, ok := c.args[0].(RVal).v.(Str); ok {
			c.ret(s)
			return
		}
		c.m.unsupported("reflect String")
	}
	t["(reflect.Value).Interface"] = func(c *callCtx) {
		r := c.args[0].(RVal)
		c.ret(Iface{typ: r.t, val: r.v})
	}
	t["(reflect.Value).Int"] = func(c *callCtx) {
		if x, ok := c.args[0].(RVal).v.(*Term); ok {
			c.ret(intConv(x, 64, true))
			return
		}
		c.m.unsupported("reflect Int")
	}
	t["(reflect.Value).Uint"] = func(c *callCtx) {
		if x, ok := c.args[0].(RVal).v.(*Term); ok {
			c.ret(intConv(x, 64, false))
			return
		}
		c.m.unsupported("reflect Uint")
	}
}

// pushFrameRaw interprets the function behind an intrinsic.
func (m *Machine) pushFrameRaw(c *callCtx) {
	m.pushFrame(&Closure{fn: c.fn}, c.args, fkNormal, c.cont)
}

func (m *Machine) wgAdd(c *callCtx, k string, n int) {
	m.hbAcqRel("wg:" + k)
	m.st.flags["wg:"+k] += n
	if m.st.flags["wg:"+k] < 0 {
		m.rtPanicPlain("sync: negative WaitGroup counter")
		return
	}
	if m.st.flags["wg:"+k] == 0 {
		m.wakeLock("wg:" + k)
	}
	c.ret(Tuple{})
}

// deepCopy clones maps, slices, pointers and aggregates reachable from v.
func (m *Machine) deepCopy(v Value, d int) Value {
	if d > 20 {
		m.unsupported("deep copy depth")
	}
	switch x := v.(type) {
	case *Agg:
		n := &Agg{gen: 0, elems: make([]Value, len(x.elems))}
		for i, e := range x.elems {
			n.elems[i] = m.deepCopy(e, d+1)
		}
		return n
	case Str:
		if x.alias != nil {
			return mkStr(m.strTerms(x))
		}
		return x
	case Slice:
		if x.arr == nil {
			return x
		}
		es := m.sliceElems(x)
		for i := range es {
			es[i] = m.deepCopy(es[i], d+1)
		}
		n := m.alloc(&Agg{gen: m.st.gen, elems: es}, nil)
		return Slice{arr: n, len: x.len, cap: x.len}
	case *Ptr:
		if x == nil || x.obj < 0 {
			return x
		}
		r := m.loadRaw(x)
		if mo, ok := r.(*MapObj); ok {
			n := &MapObj{gen: m.st.gen, kt: mo.kt, vt: mo.vt, typ: mo.typ, nsym: mo.nsym, nextID: mo.nextID}
			m.accessKey(x.key()+".map", false)
			for _, e := range mo.entries {
				n.entries = append(n.entries, MapEntry{key: m.deepCopy(e.key, d+1), val: m.deepCopy(e.val, d+1), id: e.id})
			}
			if mo.idx != nil {
				n.idx = map[string]int{}
				for k, v := range mo.idx {
					n.idx[k] = v
				}
			}
			return m.alloc(n, m.getObj(x.obj).typ)
		}
		if len(x.path) > 0 {
			m.unsupported("deep copy of an interior pointer")
		}
		m.access(x, false)
		return m.alloc(m.deepCopy(r, d+1), m.getObj(x.obj).typ)
	case Iface:
		if x.typ == nil {
			return x
		}
		return Iface{typ: x.typ, val: m.deepCopy(x.val, d+1)}
	}
	return v
}

func (m *Machine) freezeDeep(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{elems: make([]Value, len(a.elems))}
		for i, e := range a.elems {
			n.elems[i] = m.freezeDeep(e)
		}
		return n
	}
	return v
}

// ---- encoding/binary ----

func (m *Machine) binTarget(i Iface) (Value, types.Type) {
	if p, ok := i.typ.Underlying().(*types.Pointer); ok {
		ptr := i.val.(*Ptr)
		if ptr == nil {
			m.unsupported("binary on nil pointer")
		}
		m.access(ptr, false)
		return m.loadRaw(ptr), p.Elem()
	}
	return i.val, i.typ
}

func (m *Machine) binSize(v Value, t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		n := fixedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * s.len
	}
	return fixedSize(t)
}

func fixedSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int, types.Uint, types.Uintptr:
			return -1
		case types.Float32:
			return 4
		case types.Float64:
			return 8
		}
		w, _, ok := basicInfo(t)
		if !ok {
			return -1
		}
		if w == 0 {
			return 1
		}
		return int(w) / 8
	case *types.Array:
		n := fixedSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := fixedSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

func (m *Machine) binEncode(big bool, v Value, t types.Type, out []*Term) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x, ok := v.(*Term)
		if !ok {
			m.unsupported("binary encoding of %T", v)
		}
		if x.w == 0 {
			return append(out, Ite(x, Const(1, 8), Const(0, 8)))
		}
		n := int(x.w) / 8
		for k := 0; k < n; k++ {
			j := k
			if big {
				j = n - 1 - k
			}
			out = append(out, Extract(uint8(8*j+7), uint8(8*j), x))
		}
		return out
	case *types.Slice:
		for _, e := range m.sliceElems(v.(Slice)) {
			out = m.binEncode(big, e, u.Elem(), out)
		}
		return out
	case *types.Array:
		for _, e := range v.(*Agg).elems {
			out = m.binEncode(big, e, u.Elem(), out)
		}
		return out
	case *types.Struct:
		for i, e := range v.(*Agg).elems {
			if u.Field(i).Name() == "_" {
				for k := fixedSize(u.Field(i).Type()); k > 0; k-- {
					out = append(out, Const(0, 8))
				}
				continue
			}
			out = m.binEncode(big, e, u.Field(i).Type(), out)
		}
		return out
	}
	m.unsupported("binary encoding of %s", t)
	return nil
}

func (m *Machine) binDecode(big bool, bs []*Term, t types.Type, old Value) (Value, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, _, ok := basicInfo(t)
		if !ok {
			m.unsupported("binary decoding of %s", t)
		}
		if w == 0 {
			return Not(Eq(bs[0], Const(0, 8))), bs[1:]
		}
		n := int(w) / 8
		var r *Term
		for k := 0; k < n; k++ {
			b := bs[k]
			if !big {
				b = bs[n-1-k]
			}
			if r == nil {
				r = b
			} else {
				r = Concat(r, b)
			}
		}
		return r, bs[n:]
	case *types.Array:
		a := &Agg{elems: make([]Value, int(u.Len()))}
		for i := range a.elems {
			a.elems[i], bs = m.binDecode(big, bs, u.Elem(), nil)
		}
		return a, bs
	case *types.Struct:
		a := &Agg{elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			if u.Field(i).Name() == "_" {
				bs = bs[fixedSize(u.Field(i).Type()):]
				a.elems[i] = zero(u.Field(i).Type())
				continue
			}
			a.elems[i], bs = m.binDecode(big, bs, u.Field(i).Type(), nil)
		}
		return a, bs
	}
	m.unsupported("binary decoding of %s", t)
	return nil, nil
}

func (m *Machine) binDecodeSlice(big bool, bs []*Term, s Slice, et types.Type) {
	vs := make([]Value, s.len)
	for i := range vs {
		vs[i], bs = m.binDecode(big, bs, et, nil)
	}
	m.writeArrSafe(s, vs)
}
