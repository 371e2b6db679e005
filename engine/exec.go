package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type pathEnd struct{ why string }

// Machine executes one state at a time on one worker.
type Machine struct {
	eng      *Engine
	run      *Run
	sol      *Solver
	st       *State
	nbase    int
	g        *Gor
	initMode bool
	jumped   bool
	local    int64
	curPos   token.Pos
	curIns   ssa.Instruction
}

func (m *Machine) unsupported(format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	panic(engErr{msg + m.where()})
}

func (m *Machine) where() string {
	if m.curIns == nil {
		return ""
	}
	return m.at(m.curIns)
}

func (m *Machine) at(in ssa.Instruction) string {
	fn := in.Parent()
	p := m.eng.prog.Fset.Position(in.Pos())
	return fmt.Sprintf(" [%s %s]", fn.String(), shortPos(p))
}

func shortPos(p token.Position) string {
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (e *Engine) info(fn *ssa.Function) *FuncInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*FuncInfo)
	}
	fi := &FuncInfo{fn: fn, idx: map[ssa.Value]int{}, name: fn.String()}
	n := 0
	for _, p := range fn.Params {
		fi.idx[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.idx[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = n
				n++
			}
		}
	}
	fi.nregs = n
	fi.intr = e.lookupIntrinsic(fn)
	if fn.Pos().IsValid() {
		f := e.prog.Fset.Position(fn.Pos()).Filename
		fi.isRepo = strings.HasPrefix(f, e.repoPath+"/") && !strings.Contains(f, "/zz")
	}
	fi.computeIfConv()
	v, _ := e.infos.LoadOrStore(fn, fi)
	return v.(*FuncInfo)
}

func (m *Machine) frame() *Frame { return m.g.frames[len(m.g.frames)-1] }

// own makes the top frame writable in this state's generation.
func (m *Machine) own() *Frame {
	k := len(m.g.frames) - 1
	f := m.g.frames[k]
	if f.gen != m.st.gen {
		n := *f
		n.gen = m.st.gen
		n.regs = make([]Value, len(f.regs))
		copy(n.regs, f.regs)
		n.defers = f.defers[:len(f.defers):len(f.defers)]
		m.g.frames[k] = &n
		return &n
	}
	return f
}

func (m *Machine) val(fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if c, ok := m.eng.constMu.Load(x); ok {
			return c
		}
		c := constValue(x)
		m.eng.constMu.Store(x, c)
		return c
	case *ssa.Global:
		return m.eng.globalPtr(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Closure{builtin: x}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(engErr{"no register for " + v.Name()})
	}
	r := fr.regs[i]
	if r == nil {
		panic(engErr{"unset register " + v.Name() + " in " + fr.fi.name})
	}
	if p, ok := r.(Poison); ok {
		m.unsupported("use of poisoned value: %s", p.why)
	}
	return r
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			return cstr(constant.StringVal(c.Value))
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			w := 64
			if u.Kind() == types.Float32 {
				w = 32
				f = float64(float32(f))
			}
			return Float{f: f, w: w}
		case u.Info()&types.IsInteger != 0:
			w, signed, _ := basicInfo(t)
			if signed {
				i, ok := constant.Int64Val(constant.ToInt(c.Value))
				if ok {
					return Const(uint64(i), w)
				}
			}
			i, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return Const(i, w)
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		}
	case *types.Interface:
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
	}
	return Poison{"constant of type " + t.String()}
}

func (e *Engine) globalPtr(g *ssa.Global) *Ptr {
	if id, ok := e.globals[g]; ok {
		return &Ptr{obj: id}
	}
	panic(engErr{"unknown global " + g.String()})
}

// ---- deciding ----

func (m *Machine) decide(c *Term) bool {
	if c.IsConst() {
		return c.val == 1
	}
	base, inv := c, false
	if c.op == ONot {
		base, inv = c.a, true
	}
	st := m.st
	if v, ok := st.facts[base.id]; ok {
		return v != inv
	}
	if m.initMode {
		panic(engErr{"symbolic branch during initialisation"})
	}
	v := st.model.Eval(base) == 1
	opp := base
	if v {
		opp = Not(base)
	}
	res, mod := m.sol.Check(st.pc, opp, st.model)
	switch res {
	case rUnsat:
		st.facts[base.id] = v
	case rUnknown:
		m.note("solver-unknown on a branch%s", m.where())
		atomic.AddInt64(&m.run.inconclusive, 1)
		st.facts[base.id] = v
		st.pc = st.pc.push(Not(opp))
	case rSat:
		if st.depth >= m.run.lim.MaxDepth {
			m.note("fork depth limit reached%s", m.where())
			atomic.AddInt64(&m.run.truncated, 1)
		} else {
			n := st.clone()
			n.depth++
			n.facts[base.id] = !v
			n.pc = n.pc.push(opp)
			n.model = mod
			m.run.push(n)
			m.forked("")
		}
		st.depth++
		st.facts[base.id] = v
		st.pc = st.pc.push(Not(opp))
		// the state's generation changed; refresh cached goroutine pointer
	}
	return v != inv
}

// assume adds c to the path condition, ending the path when infeasible.
func (m *Machine) assume(c *Term) {
	if c.IsConst() {
		if c.val == 1 {
			return
		}
		panic(pathEnd{"assume"})
	}
	st := m.st
	if v, ok := st.facts[c.id]; ok {
		if v {
			return
		}
		panic(pathEnd{"assume"})
	}
	if st.model.Eval(c) != 1 {
		res, mod := m.sol.Check(st.pc, c, st.model)
		if res == rUnknown {
			m.note("solver-unknown on an assumption%s", m.where())
			atomic.AddInt64(&m.run.inconclusive, 1)
			panic(pathEnd{"unknown"})
		}
		if res == rUnsat {
			panic(pathEnd{"assume"})
		}
		st.model = mod
	}
	st.pc = st.pc.push(c)
	m.addFact(c)
}

func (m *Machine) addFact(c *Term) {
	switch c.op {
	case OAnd:
		m.addFact(c.a)
		m.addFact(c.b)
	case ONot:
		m.st.facts[c.a.id] = false
		if c.a.op == OOr {
			m.addFact(Not(c.a.a))
			m.addFact(Not(c.a.b))
		}
	default:
		m.st.facts[c.id] = true
	}
}

// assertTerm checks that c holds on this path; a violation is recorded with
// its model and the path continues where c holds.
func (m *Machine) assertTerm(c *Term, kind, msg string) {
	atomic.AddInt64(&m.run.asserts, 1)
	if c == tTrue {
		atomic.AddInt64(&m.run.discharged, 1)
		return
	}
	st := m.st
	if v, ok := st.facts[c.id]; ok && v {
		atomic.AddInt64(&m.run.discharged, 1)
		return
	}
	if c != tFalse && st.model.Eval(c) == 1 {
		res, mod := m.sol.Check(st.pc, Not(c), st.model)
		switch res {
		case rUnsat:
			atomic.AddInt64(&m.run.discharged, 1)
			st.facts[c.id] = true
			return
		case rUnknown:
			m.note("solver-unknown on assertion %q", msg)
			atomic.AddInt64(&m.run.inconclusive, 1)
		case rSat:
			m.run.failure(m, kind, msg, mod)
		}
		m.assume(c)
		return
	}
	m.run.failure(m, kind, msg, st.model)
	if c == tFalse {
		panic(pathEnd{"assert"})
	}
	m.assume(c)
}

// concInt concretises a term (forking over its feasible values).
func (m *Machine) concInt(t *Term) int64 {
	if t.IsConst() {
		return t.Int()
	}
	for n := 0; ; n++ {
		v := Const(m.st.model.Eval(t), t.w)
		if m.decide(Eq(t, v)) {
			return v.Int()
		}
		if n > m.run.lim.MaxConc {
			m.note("concretisation limit%s", m.where())
			atomic.AddInt64(&m.run.truncated, 1)
			panic(pathEnd{"conc"})
		}
	}
}

var (
	profileForks = os.Getenv("GOSYM_FORKS") != ""
	forkSites    sync.Map
)

func (m *Machine) forked(label string) {
	atomic.AddInt64(&m.run.forks, 1)
	if profileForks {
		n, _ := forkSites.LoadOrStore(label+m.where(), new(int64))
		atomic.AddInt64(n.(*int64), 1)
	}
}

func printForks() {
	type site struct {
		s string
		n int64
	}
	var l []site
	forkSites.Range(func(k, v any) bool { l = append(l, site{k.(string), *v.(*int64)}); return true })
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 12 {
			fmt.Printf("    %d forks %s\n", x.n, x.s)
		}
	}
	forkSites.Range(func(k, v any) bool { forkSites.Delete(k); return true })
}

// choose forks over 0..n-1 without solver queries (fresh variable).
func (m *Machine) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	st := m.st
	if st.occ[label] > 0 {
		m.unsupported("input label %q is used for a choice and a value", label)
	}
	name := fmt.Sprintf("%s#%d", label, st.occ["~"+label])
	v := Var(name, 8, 0, uint64(n-1))
	for i := 0; i < n-1; i++ {
		eq := Eq(v, Const(uint64(i), 8))
		if f, ok := st.facts[eq.id]; ok {
			if f {
				st.occ["~"+label]++
				m.regInput(name, v)
				return i
			}
			continue
		}
		c := st.clone()
		c.depth++
		c.facts[eq.id] = false
		c.pc = c.pc.push(Not(eq))
		c.model = c.model.with(name, uint64(i+1))
		m.run.push(c)
		m.forked(label)
		st.facts[eq.id] = true
		st.pc = st.pc.push(eq)
		st.model = st.model.with(name, uint64(i))
		st.depth++
		st.occ["~"+label]++
		m.regInput(name, v)
		return i
	}
	eq := Eq(v, Const(uint64(n-1), 8))
	if _, ok := st.facts[eq.id]; !ok && !eq.IsConst() {
		st.facts[eq.id] = true
		st.pc = st.pc.push(eq)
	}
	st.occ["~"+label]++
	m.regInput(name, v)
	return n - 1
}

func (m *Model) with(k string, v uint64) *Model {
	n := make(map[string]uint64, len(m.vals)+1)
	for a, b := range m.vals {
		n[a] = b
	}
	n[k] = v
	return NewModel(n)
}

func (m *Machine) regInput(key string, v *Term) {
	m.st.inputs = append(m.st.inputs, Input{key, v})
	m.st.vars = append(m.st.vars, v)
}

// newVar creates a registered input variable with its range asserted.
func (m *Machine) newVar(key string, w uint8, lo, hi uint64) *Term {
	v := Var(key, w, lo, hi)
	m.regInput(key, v)
	if w > 0 {
		// the range constraint is asserted on an unconstrained twin so that the
		// simplifier cannot fold it away
		if lo > 0 || hi < maskW(w) {
			tw := rawVar(key, w)
			if lo > 0 {
				m.st.pc = m.st.pc.push(Not(mk(OUlt, 0, tw, Const(lo, w), nil, 0, nil)))
			}
			if hi < maskW(w) {
				m.st.pc = m.st.pc.push(Not(mk(OUlt, 0, Const(hi, w), tw, nil, 0, nil)))
			}
		}
	}
	return v
}

func rawVar(key string, w uint8) *Term { return Var(key, w, 0, maskW(w)) }

// ---- running ----

// set and next re-own the frame: a fork may have changed the generation.
func (m *Machine) set(_ *Frame, in ssa.Value, v Value) {
	fr := m.own()
	fr.regs[fr.fi.idx[in]] = v
}

func (m *Machine) next() { m.own().ip++ }

// deliver stores a call result in the current frame and advances.
func (m *Machine) deliver(res Value) {
	fr := m.own()
	in := fr.block.Instrs[fr.ip]
	switch c := in.(type) {
	case *ssa.Call:
		if res == nil {
			res = Tuple{}
		}
		fr.regs[fr.fi.idx[c]] = res
		m.next()
	case *ssa.Defer, *ssa.Go:
		m.next()
	case *ssa.RunDefers:
		// stay
	default:
		if v, ok := in.(ssa.Value); ok {
			fr.regs[fr.fi.idx[v]] = res
		}
		m.next()
	}
}

// runState executes until the path ends.
func (m *Machine) runState(st *State) (end string, err error) {
	m.st = st
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x.why
			case engErr:
				end, err = "unsupported", x
			default:
				if os.Getenv("GOSYM_PANIC") != "" {
					panic(r)
				}
				end, err = "unsupported", engErr{fmt.Sprintf("engine panic: %v%s", r, m.where())}
			}
		}
	}()
	for {
		if !m.schedule() {
			return "done", nil
		}
		for m.g.status == gRun && !m.jumped {
			m.step()
		}
		m.jumped = false
	}
}

func (m *Machine) step() {
	st := m.st
	m.local++
	st.steps++
	if st.steps&0x3ff == 0 {
		if st.steps > m.run.lim.MaxSteps {
			m.note("step limit%s", m.where())
			atomic.AddInt64(&m.run.truncated, 1)
			panic(pathEnd{"steps"})
		}
		if m.run.expired() {
			atomic.AddInt64(&m.run.truncated, 1)
			panic(pathEnd{"time"})
		}
	}
	st.seq0 = st.seq
	fr := m.own()
	in := fr.block.Instrs[fr.ip]
	m.curIns = in
	if m.eng.verbose {
		fmt.Printf("g%d %s.%d.%d %s\n", m.g.id, fr.fi.name, fr.block.Index, fr.ip, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		m.next()
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		p := m.alloc(zero(t), t)
		m.set(fr, x, p)
		m.next()
	case *ssa.BinOp:
		v := m.binop(x.Op, m.val(fr, x.X), m.val(fr, x.Y), x.X.Type(), x.Y.Type())
		if v == nil {
			return // panicked
		}
		fr = m.own()
		m.set(fr, x, v)
		m.next()
	case *ssa.UnOp:
		m.unop(fr, x)
	case *ssa.Store:
		p := m.val(fr, x.Addr).(*Ptr)
		if p == nil {
			m.nilDeref()
			return
		}
		v := m.val(fr, x.Val)
		m.access(p, true)
		m.storeRaw(p, v)
		m.next()
	case *ssa.Phi:
		m.phis(fr)
	case *ssa.Jump:
		m.jump(fr, 0)
	case *ssa.If:
		m.doIf(fr, x)
	case *ssa.Return:
		m.doReturn(fr, x)
	case *ssa.Call:
		m.doCall(fr, &x.Call, x)
	case *ssa.Go:
		m.doGo(fr, x)
	case *ssa.Defer:
		m.doDefer(fr, x)
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			m.next()
		} else {
			m.popDefer(fr)
		}
	case *ssa.Panic:
		m.doPanic(m.val(fr, x.X))
	case *ssa.FieldAddr:
		p := m.val(fr, x.X).(*Ptr)
		if p == nil {
			m.nilDeref()
			return
		}
		m.set(fr, x, p.elem(x.Field))
		m.next()
	case *ssa.Field:
		a, ok := m.val(fr, x.X).(*Agg)
		if !ok {
			m.unsupported("field of %T", m.val(fr, x.X))
		}
		m.set(fr, x, a.elems[x.Field])
		m.next()
	case *ssa.IndexAddr:
		m.indexAddr(fr, x)
	case *ssa.Index:
		m.index(fr, x)
	case *ssa.Lookup:
		m.lookup(fr, x)
	case *ssa.MapUpdate:
		m.mapUpdate(fr, x)
	case *ssa.Slice:
		m.sliceOp(fr, x)
	case *ssa.MakeSlice:
		m.makeSlice(fr, x)
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		if x.Reserve != nil {
			// Go ignores a size hint that is negative or beyond the address space
			r := intConv(m.val(fr, x.Reserve).(*Term), 64, isSigned(x.Reserve.Type()))
			if !r.IsConst() || int64(r.val) > 1<<20 {
				if es := stdSizes.Sizeof(mt.Key()) + stdSizes.Sizeof(mt.Elem()); m.decide(Ule(r, Const(uint64(1<<47/max(es, 1)), 64))) {
					m.allocCheck(r, es)
				}
			}
		}
		p := m.alloc(&MapObj{gen: m.st.gen, kt: mt.Key(), vt: mt.Elem(), typ: mt}, x.Type())
		m.set(fr, x, p)
		m.next()
	case *ssa.MakeChan:
		n := int(m.concInt(m.val(fr, x.Size).(*Term)))
		p := m.alloc(&ChanObj{gen: m.st.gen, cap: n, et: x.Type().Underlying().(*types.Chan).Elem()}, x.Type())
		m.set(m.own(), x, p)
		m.next()
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, m.val(fr, b))
		}
		m.set(fr, x, c)
		m.next()
	case *ssa.MakeInterface:
		m.set(fr, x, Iface{typ: x.X.Type(), val: m.val(fr, x.X)})
		m.next()
	case *ssa.ChangeInterface:
		m.set(fr, x, m.val(fr, x.X))
		m.next()
	case *ssa.ChangeType:
		m.set(fr, x, m.val(fr, x.X))
		m.next()
	case *ssa.Convert:
		v := m.convert(m.val(fr, x.X), x.X.Type(), x.Type())
		fr = m.own()
		m.set(fr, x, v)
		m.next()
	case *ssa.MultiConvert:
		v := m.convert(m.val(fr, x.X), x.X.Type(), x.Type())
		fr = m.own()
		m.set(fr, x, v)
		m.next()
	case *ssa.SliceToArrayPointer:
		s := m.val(fr, x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			m.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
			return
		}
		if s.arr == nil {
			m.set(fr, x, nilPtr)
			m.next()
			return
		}
		// only whole-array conversions keep identity
		m.set(fr, x, m.subArray(s, n, x.Type(), derefOnly(x)))
		m.next()
	case *ssa.TypeAssert:
		m.typeAssert(fr, x)
	case *ssa.Extract:
		t := m.val(fr, x.Tuple).(Tuple)
		m.set(fr, x, t[x.Index])
		m.next()
	case *ssa.Range:
		m.rangeOp(fr, x)
	case *ssa.Next:
		m.nextOp(fr, x)
	case *ssa.Send:
		m.chanSend(fr, x)
	case *ssa.Select:
		m.selectOp(fr, x)
	default:
		m.unsupported("instruction %T", in)
	}
}

// derefOnly reports that a pointer is immediately dereferenced, so a copy
// of what it points to is as good.
func derefOnly(x *ssa.SliceToArrayPointer) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if u.Block() != x.Block() {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (m *Machine) subArray(s Slice, n int, t types.Type, exact bool) Value {
	a, ok := m.loadRaw(s.arr).(*Agg)
	if ok && s.off == 0 && len(a.elems) == n {
		return s.arr
	}
	// views into a larger array: pointer with an offset window is not
	// representable; materialise a copy when it is only read.
	es := m.sliceElems(Slice{arr: s.arr, off: s.off, len: n})
	if !exact {
		m.run.noteOnce("slice-to-array-pointer conversion modelled as a copy")
	}
	return m.alloc(&Agg{gen: m.st.gen, elems: es}, t.Underlying().(*types.Pointer).Elem())
}

func (m *Machine) phis(fr *Frame) {
	pi := -1
	for i, p := range fr.block.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	if pi < 0 {
		panic(engErr{"phi without predecessor"})
	}
	var vals []Value
	n := 0
	for _, in := range fr.block.Instrs[fr.ip:] {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e := ph.Edges[pi]
		var v Value
		if i, ok := fr.fi.idx[e]; ok {
			v = fr.regs[i]
			if v == nil {
				v = Poison{"phi"}
			}
		} else {
			v = m.val(fr, e)
		}
		vals = append(vals, v)
		n++
	}
	for i := 0; i < n; i++ {
		ph := fr.block.Instrs[fr.ip+i].(*ssa.Phi)
		m.set(fr, ph, vals[i])
	}
	fr.ip += n
}

func (m *Machine) jump(fr *Frame, k int) {
	fr.prev = fr.block
	fr.block = fr.block.Succs[k]
	fr.ip = 0
	if fr.block.Index <= fr.prev.Index {
		fr.spins++
		if fr.spins > m.run.lim.MaxSpins {
			m.note("loop bound %d exceeded in %s", m.run.lim.MaxSpins, fr.fi.name)
			atomic.AddInt64(&m.run.truncated, 1)
			panic(pathEnd{"unwind"})
		}
	}
}

func (m *Machine) doIf(fr *Frame, x *ssa.If) {
	c := m.val(fr, x.Cond).(*Term)
	if !c.IsConst() && !m.initMode {
		if ic := fr.fi.ifc[x]; ic != nil {
			if m.tryIfConv(fr, ic, c) {
				return
			}
		}
	}
	v := m.decide(c)
	fr = m.own()
	if v {
		m.jump(fr, 0)
	} else {
		m.jump(fr, 1)
	}
}

// ---- if-conversion of side-effect-free triangles/diamonds ----

type ifConv struct {
	join *ssa.BasicBlock
	t, f *ssa.BasicBlock // nil = direct edge
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 8 {
		return false
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Jump, *ssa.DebugRef:
		case *ssa.BinOp:
			switch x.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if _, _, ok := basicInfo(x.X.Type()); !ok {
				return false
			}
		case *ssa.Convert:
			if _, _, ok := basicInfo(x.X.Type()); !ok {
				return false
			}
			if _, _, ok := basicInfo(x.Type()); !ok {
				return false
			}
		case *ssa.UnOp:
			if x.Op == token.MUL || x.Op == token.ARROW {
				return false
			}
			if _, _, ok := basicInfo(x.X.Type()); !ok {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (fi *FuncInfo) computeIfConv() {
	fi.ifc = map[*ssa.If]*ifConv{}
	for _, b := range fi.fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		s0, s1 := b.Succs[0], b.Succs[1]
		var ic *ifConv
		switch {
		case pureBlock(s0) && s0.Succs[0] == s1:
			ic = &ifConv{join: s1, t: s0}
		case pureBlock(s1) && s1.Succs[0] == s0:
			ic = &ifConv{join: s0, f: s1}
		case pureBlock(s0) && pureBlock(s1) && s0.Succs[0] == s1.Succs[0]:
			ic = &ifConv{join: s0.Succs[0], t: s0, f: s1}
		}
		if ic == nil {
			continue
		}
		// all phis in the join must be scalars; if there is none there is nothing to merge
		ok = true
		np := 0
		for _, in := range ic.join.Instrs {
			ph, isPhi := in.(*ssa.Phi)
			if !isPhi {
				break
			}
			np++
			if _, _, b := basicInfo(ph.Type()); !b {
				ok = false
			}
		}
		if ok {
			fi.ifc[x] = ic
		}
	}
}

func (m *Machine) tryIfConv(fr *Frame, ic *ifConv, c *Term) bool {
	base := c
	if c.op == ONot {
		base = c.a
	}
	if _, ok := m.st.facts[base.id]; ok {
		return false
	}
	from := fr.block
	for _, b := range []*ssa.BasicBlock{ic.t, ic.f} {
		if b == nil {
			continue
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				m.set(fr, x, m.binop(x.Op, m.val(fr, x.X), m.val(fr, x.Y), x.X.Type(), x.Y.Type()))
			case *ssa.Convert:
				m.set(fr, x, m.convert(m.val(fr, x.X), x.X.Type(), x.Type()))
			case *ssa.UnOp:
				m.set(fr, x, m.unopScalar(x.Op, m.val(fr, x.X), x.X.Type()))
			}
		}
	}
	pt, pf := from, from
	if ic.t != nil {
		pt = ic.t
	}
	if ic.f != nil {
		pf = ic.f
	}
	ti, fi := -1, -1
	for i, p := range ic.join.Preds {
		if p == pt && ti < 0 {
			ti = i
		}
		if p == pf && fi < 0 {
			fi = i
		}
	}
	var vals []Value
	var phs []*ssa.Phi
	for _, in := range ic.join.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		a, ok1 := m.val(fr, ph.Edges[ti]).(*Term)
		b, ok2 := m.val(fr, ph.Edges[fi]).(*Term)
		if !ok1 || !ok2 {
			return false
		}
		vals = append(vals, Ite(c, a, b))
		phs = append(phs, ph)
	}
	for i, ph := range phs {
		m.set(fr, ph, vals[i])
	}
	fr.prev = pt
	fr.block = ic.join
	fr.ip = len(phs)
	return true
}

// ---- calls ----

func (m *Machine) pushFrame(c *Closure, args []Value, kind frameKind, cont func(m *Machine, res Value)) {
	fn := c.fn
	if r, ok := m.eng.redirects[fn.String()]; ok {
		fn = r
		c = &Closure{fn: fn}
	}
	fi := m.eng.info(fn)
	if len(fn.Blocks) == 0 {
		m.unsupported("call of function without a body: %s", fi.name)
	}
	if len(m.g.frames) > 2000 {
		m.unsupported("call depth")
	}
	atomic.StoreInt32(&fi.used, 1)
	fr := &Frame{gen: m.st.gen, fi: fi, regs: make([]Value, fi.nregs), block: fn.Blocks[0], kind: kind, cont: cont}
	if len(args) != len(fn.Params) {
		m.unsupported("call of %s with %d args", fi.name, len(args))
	}
	copy(fr.regs, args)
	copy(fr.regs[len(args):], c.bind)
	m.g.frames = append(m.g.frames, fr)
}

// resolve evaluates a call's callee and arguments.
func (m *Machine) resolve(fr *Frame, c *ssa.CallCommon) (cl *Closure, args []Value, ok bool) {
	if c.IsInvoke() {
		recv := m.val(fr, c.Value)
		i, isI := recv.(Iface)
		if !isI {
			m.unsupported("invoke on %T", recv)
		}
		if i.typ == nil {
			m.nilDeref()
			return nil, nil, false
		}
		f := m.eng.findMethod(i.typ, c.Method)
		if f == nil {
			m.unsupported("method %s not found on %s", c.Method.Name(), i.typ)
		}
		cl = &Closure{fn: f}
		args = append(args, i.val)
	} else {
		v := m.val(fr, c.Value)
		cl, ok = v.(*Closure)
		if !ok {
			m.unsupported("call of %T", v)
		}
	}
	for _, a := range c.Args {
		args = append(args, m.val(fr, a))
	}
	return cl, args, true
}

type msKey struct {
	t types.Type
	f *types.Func
}

func (e *Engine) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	if v, ok := e.msCache.Load(msKey{t, meth}); ok {
		return v.(*ssa.Function)
	}
	e.typeMu.Lock()
	f := e.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	e.typeMu.Unlock()
	if f != nil {
		e.msCache.Store(msKey{t, meth}, f)
	}
	return f
}

func (m *Machine) doCall(fr *Frame, c *ssa.CallCommon, x *ssa.Call) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = m.val(fr, a)
		}
		m.builtin(b, args, c)
		return
	}
	cl, args, ok := m.resolve(fr, c)
	if !ok {
		return
	}
	m.callClosure(cl, args, nil)
}

// callClosure performs a call whose result is delivered to the current
// instruction (or to cont).
func (m *Machine) callClosure(cl *Closure, args []Value, cont func(m *Machine, res Value)) {
	if cl == nil {
		m.nilDeref()
		return
	}
	if cl.builtin != nil {
		m.unsupported("call of builtin value")
	}
	fi := m.eng.info(cl.fn)
	if fi.intr != nil {
		ctx := &callCtx{m: m, fn: cl.fn, args: args, cont: cont, fi: fi}
		fi.intr(ctx)
		return
	}
	m.pushFrame(cl, args, fkNormal, cont)
}

type callCtx struct {
	m    *Machine
	fn   *ssa.Function
	fi   *FuncInfo
	args []Value
	cont func(m *Machine, res Value)
}

// ret completes an intrinsic call.
func (c *callCtx) ret(v Value) {
	if c.cont != nil {
		c.cont(c.m, v)
		return
	}
	c.m.deliver(v)
}

func (m *Machine) doGo(fr *Frame, x *ssa.Go) {
	if m.initMode {
		m.next()
		return
	}
	if _, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
		m.unsupported("go builtin")
	}
	cl, args, ok := m.resolve(fr, &x.Call)
	if !ok {
		return
	}
	if cl == nil {
		m.nilDeref()
		return
	}
	m.spawn(cl, args, m.g.par)
	m.next()
}

func (m *Machine) spawn(cl *Closure, args []Value, par int) *Gor {
	st := m.st
	g := &Gor{id: len(st.gs), par: par}
	if m.g != nil {
		m.g.vc = m.g.vc.clone()
		g.vc = m.g.vc.clone()
		m.g.vc[m.g.id]++
	} else {
		g.vc = VC{}
	}
	g.vc[g.id] = 1
	st.gs = append(st.gs, g)
	cur := m.g
	m.g = g
	fi := m.eng.info(cl.fn)
	if fi.intr != nil {
		// wrap: run intrinsic in a trampoline frame is not supported
		m.g = cur
		m.unsupported("go on intrinsic %s", fi.name)
	}
	m.pushFrame(cl, args, fkRoot, nil)
	m.g = cur
	return g
}

func (m *Machine) doDefer(fr *Frame, x *ssa.Defer) {
	if b, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
		args := make([]Value, len(x.Call.Args))
		for i, a := range x.Call.Args {
			args[i] = m.val(fr, a)
		}
		fr = m.own()
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], DeferRec{bi: b, args: args, call: &x.Call})
		m.next()
		return
	}
	cl, args, ok := m.resolve(fr, &x.Call)
	if !ok {
		return
	}
	fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], DeferRec{fn: cl, args: args})
	m.next()
}

// popDefer starts the most recent deferred call of fr.
func (m *Machine) popDefer(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	if d.bi != nil {
		m.deferredBuiltin(d)
		return
	}
	if d.fn == nil {
		m.nilDeref()
		return
	}
	fi := m.eng.info(d.fn.fn)
	if fi.intr != nil {
		ctx := &callCtx{m: m, fn: d.fn.fn, args: d.args, fi: fi, cont: func(m *Machine, res Value) {}}
		// an intrinsic that blocks or forks must find the defer again
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], d)
		ctx.cont = func(m *Machine, res Value) {
			f := m.own()
			f.defers = f.defers[:len(f.defers)-1]
		}
		fi.intr(ctx)
		return
	}
	m.pushFrame(d.fn, d.args, fkDefer, nil)
}

func (m *Machine) doReturn(fr *Frame, x *ssa.Return) {
	var res Value
	switch len(x.Results) {
	case 0:
		res = Tuple{}
	case 1:
		res = m.val(fr, x.Results[0])
	default:
		t := make(Tuple, len(x.Results))
		for i, r := range x.Results {
			t[i] = m.val(fr, r)
		}
		res = t
	}
	m.finishFrame(res)
}

// finishFrame pops the top frame and delivers its result.
func (m *Machine) finishFrame(res Value) {
	g := m.g
	k := len(g.frames) - 1
	fr := g.frames[k]
	g.frames = g.frames[:k]
	if fr.kind == fkRoot || k == 0 {
		if fr.cont != nil {
			fr.cont(m, res)
		}
		m.exitG()
		return
	}
	if fr.kind == fkDefer {
		m.afterDefer()
		return
	}
	if fr.cont != nil {
		fr.cont(m, res)
		return
	}
	m.deliver(res)
}

// afterDefer continues after a deferred call returned.
func (m *Machine) afterDefer() {
	g := m.g
	if n := len(g.panics); n > 0 {
		p := g.panics[n-1]
		if p.depth == len(g.frames)-1 {
			if p.recovered {
				g.panics = g.panics[:n-1]
				fr := m.own()
				fr.recovering = true
				m.continueRecover()
				return
			}
			m.unwind()
			return
		}
	}
	fr := m.own()
	if fr.recovering {
		m.continueRecover()
		return
	}
	// at RunDefers: re-execute it
}

func (m *Machine) continueRecover() {
	fr := m.own()
	if len(fr.defers) > 0 {
		m.popDefer(fr)
		return
	}
	fr.recovering = false
	if rb := fr.fi.fn.Recover; rb != nil {
		fr.prev = fr.block
		fr.block = rb
		fr.ip = 0
		return
	}
	sig := fr.fi.fn.Signature
	var res Value = Tuple{}
	if n := sig.Results().Len(); n == 1 {
		res = zero(sig.Results().At(0).Type())
	} else if n > 1 {
		res = zero(sig.Results())
	}
	m.finishFrame(res)
}

func (m *Machine) doPanic(v Value) {
	m.g.panics = append(m.g.panics, &PanicRec{val: v, depth: len(m.g.frames) - 1, where: m.where()})
	if m.initMode {
		panic(engErr{"panic during initialisation: " + m.panicText(v)})
	}
	m.unwind()
}

func (m *Machine) unwind() {
	g := m.g
	p := g.panics[len(g.panics)-1]
	for {
		if len(g.frames) == 0 {
			m.crash(p)
			return
		}
		p.depth = len(g.frames) - 1
		fr := m.own()
		if len(fr.defers) > 0 {
			m.popDeferPanic(fr)
			return
		}
		g.frames = g.frames[:len(g.frames)-1]
		// a deferred call that panics aborts the panic that was running it
		if n := len(g.panics); n > 1 && fr.kind == fkDefer {
			q := g.panics[n-2]
			if q.depth == len(g.frames)-1 {
				g.panics = append(g.panics[:n-2:n-2], p)
			}
		}
	}
}

func (m *Machine) popDeferPanic(fr *Frame) {
	d := fr.defers[len(fr.defers)-1]
	if d.bi == nil && d.fn != nil {
		fi := m.eng.info(d.fn.fn)
		if fi.intr != nil {
			ctx := &callCtx{m: m, fn: d.fn.fn, args: d.args, fi: fi}
			ctx.cont = func(m *Machine, res Value) {
				f := m.own()
				f.defers = f.defers[:len(f.defers)-1]
				m.unwind()
			}
			fi.intr(ctx)
			return
		}
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.pushFrame(d.fn, d.args, fkDefer, nil)
		return
	}
	fr.defers = fr.defers[:len(fr.defers)-1]
	if d.bi != nil {
		m.deferredBuiltin(d)
	}
	m.unwind()
}

func (m *Machine) crash(p *PanicRec) {
	m.run.failure(m, "panic", "uncaught panic: "+m.panicText(p.val)+p.where, m.st.model)
	panic(pathEnd{"crash"})
}

func (m *Machine) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		return fmt.Sprintf("%T", v)
	}
	if i.typ == nil {
		return "nil"
	}
	switch x := i.val.(type) {
	case Str:
		if s, ok := m.concStr(x); ok {
			return s
		}
		return "<symbolic string>"
	case *Term:
		return x.String()
	}
	return i.typ.String()
}

func (m *Machine) rtPanic(msg string) {
	if m.initMode {
		panic(engErr{"runtime error during init: " + msg})
	}
	m.doPanic(Iface{typ: m.eng.rtErr, val: cstr("runtime error: " + msg)})
}

func (m *Machine) nilDeref() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

func (m *Machine) doRecover() Value {
	g := m.g
	if n := len(g.panics); n > 0 {
		p := g.panics[n-1]
		fr := m.frame()
		if !p.recovered && fr.kind == fkDefer && p.depth == len(g.frames)-2 {
			p.recovered = true
			return p.val
		}
	}
	return Iface{}
}

var _ = math.MaxInt64
