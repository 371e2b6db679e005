package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type VC map[int]int

func (v VC) clone() VC {
	n := make(VC, len(v)+1)
	for k, x := range v {
		n[k] = x
	}
	return n
}
func (v VC) join(o VC) VC {
	n := v.clone()
	for k, x := range o {
		if x > n[k] {
			n[k] = x
		}
	}
	return n
}

type LockState struct {
	writer  int // gid+1 or 0
	readers map[int]int
	pending int // gid+1 waiting for readers to drain
	vc      VC  // release clock of writers
	rvc     VC  // release clock of readers
}

func (l *LockState) clone() *LockState {
	n := *l
	n.readers = map[int]int{}
	for k, v := range l.readers {
		n.readers[k] = v
	}
	return &n
}

type DeferRec struct {
	fn   *Closure
	args []Value
	bi   *ssa.Builtin
	call *ssa.CallCommon
}

type frameKind uint8

const (
	fkNormal frameKind = iota
	fkDefer            // deferred call: result discarded, caller instruction re-executed
	fkRoot             // goroutine root
)

type Frame struct {
	gen        uint64
	fi         *FuncInfo
	regs       []Value
	block      *ssa.BasicBlock
	prev       *ssa.BasicBlock
	ip         int
	defers     []DeferRec
	kind       frameKind
	recovering bool
	cont       func(m *Machine, res Value)
	spins      int
}

type PanicRec struct {
	val       Value
	depth     int // index of frame being unwound
	recovered bool
	where     string
}

type gstatus uint8

const (
	gRun gstatus = iota
	gBlocked
	gDone
)

type Gor struct {
	id        int
	frames    []*Frame
	panics    []*PanicRec
	status    gstatus
	why       string
	waitKey   string // lock key waited on
	vc        VC
	par       int  // par group (0 = none)
	parIdx    int  // position in the group, from 1 (0: spawned inside it)
	granted   bool // may execute its pending visible op
	atVis     bool
	visKey    string
	visKind   string
	wake      Value // value delivered by a waker
	woken     bool
	wakePanic string
	chans     []*Ptr // channels this goroutine is queued on
	parWait   []int
	sleeping  bool
}

type Input struct {
	key string
	t   *Term
}

type Obs struct {
	label string
	val   string  // concrete text
	terms []*Term // or symbolic bytes/ints
	kind  string
}

type accRec struct {
	path   []int32
	lo, hi int32 // lo < 0: the whole node
	tid    int
	clk    int
	write  bool
	where  string
}

type State struct {
	gen     uint64
	objs    []*Obj // ids >= nbase
	baseMod map[int]*Obj
	gs      []*Gor
	cur     int
	pc      *PCNode
	facts   map[uint32]bool
	model   *Model
	seq     int
	seq0    int // seq at instruction start
	occ     map[string]int
	digits  *digitNode
	inputs  []Input
	vars    []*Term
	sched   []int
	schedK  []string
	npre    int // preemptions so far (flag preempt bounds them)
	lastG   int // the goroutine that last made a visible step
	obs     []Obs
	locks   map[string]*LockState
	acc     map[string][]accRec
	parOn   int
	parSeq  int
	steps   int
	depth   int
	reach   map[string]bool
	flags   map[string]int
	pools   map[string][]Value
	notes   map[string]bool
	clockID int
	waits   map[string]int
	trace   []string
	conds   int
}

var genSeq uint64

func newGen() uint64 { return atomic.AddUint64(&genSeq, 1) }

// ---- engine ----

type FuncInfo struct {
	fn      *ssa.Function
	idx     map[ssa.Value]int
	nregs   int
	intr    intrinsic
	once    sync.Once
	name    string
	used    int32
	isRepo  bool
	ifc     map[*ssa.If]*ifConv
	loopHdr map[*ssa.BasicBlock]bool
}

type Engine struct {
	deep      bool
	prog      *ssa.Program
	infos     sync.Map // *ssa.Function -> *FuncInfo
	base      []*Obj
	globals   map[*ssa.Global]int
	globMu    sync.Mutex
	uniqMu    sync.Mutex
	uniq      map[string]int
	uniqObjs  []*Obj
	redirects map[string]*ssa.Function
	inited    map[*ssa.Package]bool
	shimPkg   *ssa.Package
	constMu   sync.Map
	typeMu    sync.Mutex
	verbose   bool
	rtErr     types.Type
	noopPkgs  []string
	repoPath  string
	msCache   sync.Map
}

type Limits struct {
	MaxPaths int
	MaxSteps int
	MaxConc  int
	MaxSpins int
	TimeMs   int64
	QueryMs  int
	MaxDepth int
}

func (m *Machine) note(format string, a ...interface{}) {
	m.run.note(fmt.Sprintf(format, a...))
}

// clone copies a state; both copies get fresh generations.
func (st *State) clone() *State {
	n := *st
	n.gen = newGen()
	st.gen = newGen()
	n.objs = append(make([]*Obj, 0, len(st.objs)+64), st.objs...)
	n.baseMod = make(map[int]*Obj, len(st.baseMod))
	for k, v := range st.baseMod {
		n.baseMod[k] = v
	}
	n.gs = make([]*Gor, len(st.gs))
	for i, g := range st.gs {
		if g.status == gDone {
			n.gs[i] = g
			continue
		}
		ng := *g
		ng.frames = append(make([]*Frame, 0, len(g.frames)+8), g.frames...)
		ng.panics = nil
		for _, p := range g.panics {
			np := *p
			ng.panics = append(ng.panics, &np)
		}
		n.gs[i] = &ng
	}
	n.facts = make(map[uint32]bool, len(st.facts)+4)
	for k, v := range st.facts {
		n.facts[k] = v
	}
	n.occ = make(map[string]int, len(st.occ))
	for k, v := range st.occ {
		n.occ[k] = v
	}
	n.inputs = st.inputs[:len(st.inputs):len(st.inputs)]
	n.vars = st.vars[:len(st.vars):len(st.vars)]
	n.obs = st.obs[:len(st.obs):len(st.obs)]
	n.sched = st.sched[:len(st.sched):len(st.sched)]
	n.schedK = st.schedK[:len(st.schedK):len(st.schedK)]
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.locks = make(map[string]*LockState, len(st.locks))
	for k, v := range st.locks {
		n.locks[k] = v.clone()
	}
	n.acc = nil
	if st.acc != nil {
		n.acc = make(map[string][]accRec, len(st.acc))
		for k, v := range st.acc {
			n.acc[k] = v[:len(v):len(v)]
		}
	}
	n.reach = cloneMapB(st.reach)
	n.flags = make(map[string]int, len(st.flags))
	for k, v := range st.flags {
		n.flags[k] = v
	}
	n.pools = make(map[string][]Value, len(st.pools))
	for k, v := range st.pools {
		n.pools[k] = v[:len(v):len(v)]
	}
	n.waits = make(map[string]int, len(st.waits))
	for k, v := range st.waits {
		n.waits[k] = v
	}
	n.notes = cloneMapB(st.notes)
	n.seq = st.seq0
	return &n
}

func cloneMapB(m map[string]bool) map[string]bool {
	n := make(map[string]bool, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ---- heap ----

func (m *Machine) getObj(id int) *Obj {
	if id < 0 {
		m.eng.uniqMu.Lock()
		o := m.eng.uniqObjs[-id-1]
		m.eng.uniqMu.Unlock()
		return o
	}
	st := m.st
	nb := m.nbase
	if id >= nb {
		return st.objs[id-nb]
	}
	if o, ok := st.baseMod[id]; ok {
		return o
	}
	return m.eng.base[id]
}

// ownObj returns an object the state may mutate.
func (m *Machine) ownObj(id int) *Obj {
	o := m.getObj(id)
	if o.gen == m.st.gen {
		return o
	}
	n := &Obj{gen: m.st.gen, root: o.root, typ: o.typ}
	if id < 0 {
		m.unsupported("write to unique object")
	}
	if id >= m.nbase {
		m.st.objs[id-m.nbase] = n
	} else {
		m.st.baseMod[id] = n
	}
	return n
}

func (m *Machine) alloc(root Value, t types.Type) *Ptr {
	id := m.nbase + len(m.st.objs)
	m.st.objs = append(m.st.objs, &Obj{gen: m.st.gen, root: root, typ: t})
	return &Ptr{obj: id}
}

func (m *Machine) freeze(v Value) Value {
	switch a := v.(type) {
	case *Agg:
		if a.gen == m.st.gen {
			a.gen = 0
		}
	}
	return v
}

func (m *Machine) ownAgg(a *Agg) *Agg {
	g := m.st.gen
	if a.gen == g {
		return a
	}
	n := &Agg{gen: g, elems: make([]Value, len(a.elems))}
	copy(n.elems, a.elems)
	for _, e := range n.elems {
		if c, ok := e.(*Agg); ok && c.gen == g {
			c.gen = 0
		} else if !ok {
			if _, isT := e.(*Term); isT && len(n.elems) > 64 {
				break // homogeneous scalar arrays need no scan
			}
		}
	}
	return n
}

func (m *Machine) loadRaw(p *Ptr) Value {
	o := m.getObj(p.obj)
	v := o.root
	for k, i := range p.path {
		switch a := v.(type) {
		case *Agg:
			if int(i) >= len(a.elems) || i < 0 {
				m.unsupported("pointer outside object (path %v of %s)", p.path, o.typ)
			}
			v = a.elems[i]
		case Slice:
			if k != len(p.path)-1 {
				m.unsupported("deep reinterpretation")
			}
			return m.hdrField(a.arrPtr(), a.len, a.cap, int(i))
		case Str:
			if k != len(p.path)-1 {
				m.unsupported("deep reinterpretation")
			}
			if i == 0 {
				return m.hdrField(m.strData(a), a.n, -1, 0)
			}
			return m.hdrField(nil, a.n, -1, int(i))
		case Poison:
			return a
		default:
			m.unsupported("path into %T", v)
		}
	}
	return v
}

func (s Slice) arrPtr() *Ptr {
	if s.arr == nil {
		return nil
	}
	return s.arr.elem(s.off)
}

// UPtr is a uintptr that still knows the pointer it came from.
type UPtr struct{ p *Ptr }

func (m *Machine) hdrField(data *Ptr, n, c, i int) Value {
	switch i {
	case 0:
		return UPtr{data}
	case 1:
		return Const(uint64(n), 64)
	case 2:
		if c < 0 {
			return Poison{"capacity word read past a string header"}
		}
		return Const(uint64(c), 64)
	}
	m.unsupported("header field %d", i)
	return nil
}

// strData materialises a string's bytes as memory.
func (m *Machine) strData(s Str) *Ptr {
	if s.alias != nil {
		return s.alias
	}
	if s.n == 0 {
		return nil
	}
	a := &Agg{gen: m.st.gen, elems: make([]Value, s.n)}
	for i := 0; i < s.n; i++ {
		a.elems[i] = m.strByte(s, i)
	}
	p := m.alloc(a, types.NewArray(types.Typ[types.Uint8], int64(s.n)))
	return p.elem(0)
}

func (m *Machine) storeRaw(p *Ptr, v Value) {
	m.freeze(v)
	o := m.ownObj(p.obj)
	if len(p.path) == 0 {
		o.root = v
		return
	}
	a, ok := o.root.(*Agg)
	if !ok {
		o.root = m.setHdr(o.root, p.path, v)
		return
	}
	a = m.ownAgg(a)
	o.root = a
	for k := 0; k < len(p.path)-1; k++ {
		i := p.path[k]
		if int(i) >= len(a.elems) || i < 0 {
			m.unsupported("store outside object")
		}
		switch c := a.elems[i].(type) {
		case *Agg:
			c = m.ownAgg(c)
			a.elems[i] = c
			a = c
		case Poison:
			return
		default:
			a.elems[i] = m.setHdr(c, p.path[k+1:], v)
			return
		}
	}
	i := p.path[len(p.path)-1]
	if int(i) >= len(a.elems) || i < 0 {
		m.unsupported("store outside object")
	}
	a.elems[i] = v
}

func (m *Machine) setHdr(c Value, path []int32, v Value) Value {
	if len(path) != 1 {
		m.unsupported("store path into %T", c)
	}
	switch x := c.(type) {
	case Slice:
		switch path[0] {
		case 0:
			x.arr, x.off = m.splitElem(v.(UPtr).p)
		case 1:
			x.len = int(v.(*Term).Int())
		case 2:
			x.cap = int(v.(*Term).Int())
		}
		return x
	case Str:
		switch path[0] {
		case 0:
			x = Str{n: x.n, alias: v.(UPtr).p}
		case 1:
			n := int(v.(*Term).Int())
			x = m.setStrLen(x, n)
		}
		return x
	}
	m.unsupported("store path into %T", c)
	return nil
}

func (m *Machine) setStrLen(x Str, n int) Str {
	if n <= x.n && n >= 0 {
		if x.isC {
			// keep the original backing so that the length can grow back
			if x.alias == nil {
				x.alias = m.strData(x)
			}
		}
		if x.alias == nil && x.terms != nil {
			x.alias = m.strData(x)
		}
	} else if x.alias == nil {
		m.unsupported("string length grown past its data")
	}
	return Str{n: n, alias: x.alias}
}

func (m *Machine) splitElem(p *Ptr) (*Ptr, int) {
	if p == nil {
		return nil, 0
	}
	if len(p.path) == 0 {
		m.unsupported("data pointer to a non-array")
	}
	k := len(p.path) - 1
	return &Ptr{obj: p.obj, path: p.path[:k:k]}, int(p.path[k])
}

// load reads *p as type t (t may be nil: no reinterpretation).
func (m *Machine) load(p *Ptr, t types.Type) Value {
	v := m.loadRaw(p)
	switch x := v.(type) {
	case *Term, *Ptr, Iface, *Closure:
		return v
	case *Agg:
		m.freeze(x)
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return m.hdrToSlice(x)
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					s := m.hdrToSlice2(x)
					return m.sliceToAlias(s)
				}
				if len(x.elems) > 0 {
					return m.firstLeaf(x, t)
				}
			}
		}
		return x
	case Slice:
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					return m.sliceToAlias(x)
				}
			case *types.Struct:
				return &Agg{elems: []Value{UPtr{x.arrPtr()}, Const(uint64(x.len), 64), Const(uint64(x.cap), 64)}[:u.NumFields()]}
			}
		}
		return x
	case Str:
		if t != nil {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				return m.strAsSliceGarbageCap(x)
			case *types.Struct:
				return &Agg{elems: []Value{UPtr{m.strData(x)}, Const(uint64(x.n), 64), Poison{"capacity word read past a string header"}}[:u.NumFields()]}
			}
		}
		return x
	case Poison:
		m.unsupported("read of uninitialised state: %s", x.why)
	}
	return v
}

func (m *Machine) firstLeaf(a *Agg, t types.Type) Value {
	m.unsupported("reinterpreting aggregate as %s", t)
	return nil
}

func (m *Machine) strAsSliceGarbageCap(s Str) Value {
	d := m.strData(s)
	arr, off := m.splitElem(d)
	return Slice{arr: arr, off: off, len: s.n, cap: garbageCap}
}

const garbageCap = 0x7ead7ead

func (m *Machine) hdrToSlice(a *Agg) Value { return m.hdrToSlice2(a) }

func (m *Machine) hdrToSlice2(a *Agg) Slice {
	if len(a.elems) < 2 {
		m.unsupported("bad slice header")
	}
	u, ok := a.elems[0].(UPtr)
	if !ok {
		if t, ok2 := a.elems[0].(*Term); ok2 && t.IsConst() && t.val == 0 {
			u = UPtr{}
		} else {
			m.unsupported("slice header with forged data pointer")
		}
	}
	arr, off := m.splitElem(u.p)
	n := int(m.concInt(a.elems[1].(*Term)))
	c := n
	if len(a.elems) > 2 {
		if ct, ok := a.elems[2].(*Term); ok {
			c = int(m.concInt(ct))
		} else {
			c = garbageCap
		}
	}
	return Slice{arr: arr, off: off, len: n, cap: c}
}

func (m *Machine) sliceToAlias(s Slice) Str {
	if s.len == 0 {
		return Str{n: 0, isC: true, alias: s.arrPtr()}
	}
	return Str{n: s.len, alias: s.arrPtr()}
}

func (m *Machine) strByte(s Str, i int) *Term {
	if s.isC {
		return Const(uint64(s.conc[i]), 8)
	}
	if s.terms != nil {
		return s.terms[i]
	}
	p := s.alias
	k := len(p.path) - 1
	np := &Ptr{obj: p.obj, path: append(append(make([]int32, 0, k+1), p.path[:k]...), p.path[k]+int32(i))}
	m.access(np, false)
	v := m.loadRaw(np)
	t, ok := v.(*Term)
	if !ok {
		m.unsupported("string byte is %T", v)
	}
	return t
}

// strTerms snapshots the bytes of s.
func (m *Machine) strTerms(s Str) []*Term {
	if s.terms != nil {
		return s.terms
	}
	r := make([]*Term, s.n)
	if s.isC {
		for i := range r {
			r[i] = Const(uint64(s.conc[i]), 8)
		}
		return r
	}
	if s.n == 0 {
		return r
	}
	p := s.alias
	k := len(p.path) - 1
	m.accessRange(&Ptr{obj: p.obj, path: p.path[:k]}, int(p.path[k]), s.n, false)
	a, ok := m.loadRaw(&Ptr{obj: p.obj, path: p.path[:k]}).(*Agg)
	if !ok {
		m.unsupported("alias base")
	}
	o := int(p.path[k])
	for i := range r {
		t, ok := a.elems[o+i].(*Term)
		if !ok {
			m.unsupported("string byte is %T", a.elems[o+i])
		}
		r[i] = t
	}
	return r
}

// concStr returns the Go string if all bytes are constants.
func (m *Machine) concStr(s Str) (string, bool) {
	if s.isC {
		return s.conc, true
	}
	ts := m.strTerms(s)
	b := make([]byte, len(ts))
	for i, t := range ts {
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func mkStr(ts []*Term) Str {
	for _, t := range ts {
		if !t.IsConst() {
			return Str{n: len(ts), terms: ts}
		}
	}
	b := make([]byte, len(ts))
	for i, t := range ts {
		b[i] = byte(t.val)
	}
	return cstr(string(b))
}

// sliceElems returns the element values of a slice (fresh copy).
func (m *Machine) sliceElems(s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	a, ok := m.loadRaw(s.arr).(*Agg)
	if !ok {
		m.unsupported("slice base")
	}
	if s.off+s.len > len(a.elems) {
		m.unsupported("slice outside its array")
	}
	m.accessRange(s.arr, s.off, s.len, false)
	r := make([]Value, s.len)
	copy(r, a.elems[s.off:s.off+s.len])
	for _, v := range r {
		m.freeze(v)
	}
	return r
}

func (m *Machine) sliceBytes(s Slice) []*Term {
	es := m.sliceElems(s)
	r := make([]*Term, len(es))
	for i, e := range es {
		t, ok := e.(*Term)
		if !ok {
			m.unsupported("byte slice holds %T", e)
		}
		r[i] = t
	}
	return r
}

func (m *Machine) newSlice(es []Value, et types.Type) Slice {
	a := &Agg{gen: m.st.gen, elems: es}
	for _, e := range es {
		m.freeze(e)
		if _, ok := e.(*Term); ok {
			break
		}
	}
	p := m.alloc(a, types.NewArray(et, int64(len(es))))
	return Slice{arr: p, len: len(es), cap: len(es)}
}

func (m *Machine) newByteSlice(ts []*Term) Slice {
	es := make([]Value, len(ts))
	for i, t := range ts {
		es[i] = t
	}
	return m.newSlice(es, types.Typ[types.Uint8])
}

// writeSlice overwrites elements [i, i+len(vs)) of the backing array.
func (m *Machine) writeArr(arr *Ptr, at int, vs []Value) {
	if len(vs) == 0 {
		return
	}
	m.accessRange(arr, at, len(vs), true)
	o := m.ownObj(arr.obj)
	a, ok := o.root.(*Agg)
	if !ok {
		m.unsupported("array store")
	}
	a = m.ownAgg(a)
	o.root = a
	for _, i := range arr.path {
		c, ok := a.elems[i].(*Agg)
		if !ok {
			m.unsupported("array store path")
		}
		c = m.ownAgg(c)
		a.elems[i] = c
		a = c
	}
	for i, v := range vs {
		m.freeze(v)
		a.elems[at+i] = v
	}
}

// ---- misc ----

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func trimPkg(s string) string {
	return strings.ReplaceAll(s, "github.com/crimist/trakx/", "")
}

// digitNode remembers the decimal digits introduced for a term, so that every
// formatting of it on one path yields the same bytes.
type digitNode struct {
	u    *Term
	ts   []*Term
	next *digitNode
}
