package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// schedule selects the goroutine to run next; false = the main goroutine ended.
func (m *Machine) schedule() bool {
	st := m.st
	for {
		if st.gs[0].status == gDone {
			return false
		}
		cur := st.gs[st.cur]
		if cur.status == gRun && (!cur.atVis || cur.granted) {
			m.g = cur
			return true
		}
		// any goroutine not stopped at a visible operation
		n := len(st.gs)
		for k := 1; k <= n; k++ {
			g := st.gs[(st.cur+k)%n]
			if g.status == gRun && (!g.atVis || g.granted) {
				st.cur = g.id
				m.g = g
				return true
			}
		}
		var en []*Gor
		for _, g := range st.gs {
			if g.status == gRun && g.atVis && m.visEnabled(g) {
				en = append(en, g)
			}
		}
		if len(en) > 0 {
			m.g = en[0]
			k := 0
			if max := st.flags["preempt"]; max > 0 && st.npre >= max {
				// no preemptions left: an enabled goroutine goes on
				for _, g := range en {
					if g.id == st.lastG {
						en = []*Gor{g}
						break
					}
				}
			}
			if len(en) > 1 {
				k = m.choose(len(en), "sched")
			}
			g := en[k]
			st = m.st
			for _, o := range en {
				if o.id == st.lastG && o != g {
					st.npre++
				}
			}
			st.lastG = g.id
			st.sched = append(st.sched, g.par*100+g.parIdx)
			st.schedK = append(st.schedK, g.visKind)
			g.granted = true
			st.cur = g.id
			m.g = g
			atomic.AddInt64(&m.run.schedPoints, 1)
			return true
		}
		// virtual time: wake a sleeper
		woke := false
		for _, g := range st.gs {
			if g.status == gBlocked && g.sleeping {
				if g.id == 0 || st.flags["timers"] > 0 {
					g.sleeping = false
					g.woken = true
					g.status = gRun
					woke = true
					break
				}
			}
		}
		if woke {
			continue
		}
		var d []string
		for _, g := range st.gs {
			if g.status != gDone {
				w := g.why
				if g.atVis {
					w = g.visKind + " " + g.visKey
				}
				d = append(d, fmt.Sprintf("g%d(%s)", g.id, w))
			}
		}
		m.g = st.gs[0]
		m.run.failure(m, "deadlock", "all goroutines are blocked: "+strings.Join(d, " "), st.model)
		panic(pathEnd{"deadlock"})
	}
}

func (m *Machine) visEnabled(g *Gor) bool {
	ls := m.st.locks[g.visKey]
	switch g.visKind {
	case "lock":
		return ls == nil || ls.writer == 0 && ls.pending == 0
	case "rlock":
		return ls == nil || ls.writer == 0 && ls.pending == 0
	}
	return true
}

// visible stops the goroutine before a visible operation in exploration mode;
// it returns true when the operation may be executed now.
func (m *Machine) visible(kind, key string) bool {
	g := m.g
	if m.st.parOn == 0 || g.par == 0 {
		return true
	}
	if g.granted {
		g.granted = false
		g.atVis = false
		return true
	}
	g.atVis = true
	g.visKind, g.visKey = kind, key
	m.jumped = true
	return false
}

func (m *Machine) block(why string) {
	m.g.status = gBlocked
	m.g.why = why
	m.jumped = true
}

func (m *Machine) exitG() {
	g := m.g
	g.status = gDone
	m.jumped = true
	for _, o := range m.st.gs {
		if o.parWait != nil && o.status == gBlocked {
			all := true
			for _, id := range o.parWait {
				if m.st.gs[id].status != gDone {
					all = false
				}
			}
			if all {
				for _, id := range o.parWait {
					o.vc = o.vc.join(m.st.gs[id].vc)
				}
				o.status = gRun
			}
		}
	}
}

// ---- locks ----

func (m *Machine) lockState(key string) *LockState {
	ls := m.st.locks[key]
	if ls == nil {
		ls = &LockState{readers: map[int]int{}, vc: VC{}, rvc: VC{}}
		m.st.locks[key] = ls
	}
	return ls
}

func nReaders(l *LockState) int {
	n := 0
	for _, v := range l.readers {
		n += v
	}
	return n
}

func (m *Machine) doLock(c *callCtx, key string) {
	g := m.g
	ls := m.lockState(key)
	if ls.writer == g.id+1 && g.woken { // handed over
		g.woken = false
		g.vc = g.vc.join(ls.vc).join(ls.rvc)
		c.ret(Tuple{})
		return
	}
	if !m.visible("lock", key) {
		return
	}
	if ls.writer == 0 && nReaders(ls) == 0 && ls.pending == 0 {
		ls.writer = g.id + 1
		g.vc = g.vc.join(ls.vc).join(ls.rvc)
		c.ret(Tuple{})
		return
	}
	if ls.writer == 0 && ls.pending == 0 {
		ls.pending = g.id + 1
	}
	g.waitKey = key
	m.block("lock " + key)
}

func (m *Machine) doUnlock(c *callCtx, key string) {
	g := m.g
	ls := m.lockState(key)
	if ls.writer == 0 {
		m.run.failure(m, "panic", "fatal error: sync: unlock of unlocked mutex"+m.where(), m.st.model)
		panic(pathEnd{"crash"})
	}
	ls.writer = 0
	ls.vc = g.vc.clone()
	g.vc = g.vc.clone()
	g.vc[g.id]++
	m.wakeLock(key)
	c.ret(Tuple{})
}

func (m *Machine) wakeLock(key string) {
	for _, o := range m.st.gs {
		if o.status == gBlocked && o.waitKey == key {
			o.status = gRun
			o.waitKey = ""
		}
	}
}

func (m *Machine) doRLock(c *callCtx, key string) {
	g := m.g
	if !m.visible("rlock", key) {
		return
	}
	ls := m.lockState(key)
	if ls.writer == 0 && ls.pending == 0 {
		ls.readers[g.id]++
		g.vc = g.vc.join(ls.vc)
		c.ret(Tuple{})
		return
	}
	g.waitKey = key
	m.block("rlock " + key)
}

func (m *Machine) doRUnlock(c *callCtx, key string) {
	g := m.g
	ls := m.lockState(key)
	if nReaders(ls) == 0 {
		m.run.failure(m, "panic", "fatal error: sync: RUnlock of unlocked RWMutex"+m.where(), m.st.model)
		panic(pathEnd{"crash"})
	}
	if ls.readers[g.id] > 0 {
		ls.readers[g.id]--
		if ls.readers[g.id] == 0 {
			delete(ls.readers, g.id)
		}
	} else {
		for k := range ls.readers {
			ls.readers[k]--
			if ls.readers[k] == 0 {
				delete(ls.readers, k)
			}
			break
		}
	}
	ls.rvc = ls.rvc.join(g.vc)
	g.vc = g.vc.clone()
	g.vc[g.id]++
	if nReaders(ls) == 0 && ls.pending != 0 {
		p := m.st.gs[ls.pending-1]
		ls.writer = ls.pending
		ls.pending = 0
		p.status = gRun
		p.woken = true
		p.waitKey = ""
	} else if nReaders(ls) == 0 {
		m.wakeLock(key)
	}
	c.ret(Tuple{})
}

// ---- happens-before for other primitives ----

func (m *Machine) hbAcqRel(key string) {
	if m.st.parOn == 0 {
		return
	}
	ls := m.lockState("hb:" + key)
	g := m.g
	g.vc = g.vc.join(ls.vc)
	ls.vc = g.vc.clone()
	g.vc = g.vc.clone()
	g.vc[g.id]++
}

// ---- race detection ----

func (m *Machine) access(p *Ptr, write bool) {
	if m.st.parOn == 0 {
		return
	}
	if len(p.path) == 0 {
		m.acc(strconv.Itoa(p.obj), nil, -1, -1, write)
		return
	}
	k := len(p.path) - 1
	m.acc(strconv.Itoa(p.obj), p.path[:k], p.path[k], p.path[k]+1, write)
}

func (m *Machine) accessRange(arr *Ptr, off, n int, write bool) {
	if m.st.parOn == 0 || n == 0 {
		return
	}
	m.acc(strconv.Itoa(arr.obj), arr.path, int32(off), int32(off+n), write)
}

func (m *Machine) accessKey(key string, write bool) {
	if m.st.parOn == 0 {
		return
	}
	m.acc(key, nil, -1, -1, write)
}

func accOverlap(pa []int32, la, ha int32, pb []int32, lb, hb int32) bool {
	n := min(len(pa), len(pb))
	for i := 0; i < n; i++ {
		if pa[i] != pb[i] {
			return false
		}
	}
	switch {
	case len(pa) == len(pb):
		return la < 0 || lb < 0 || la < hb && lb < ha
	case len(pa) < len(pb):
		return la < 0 || pb[len(pa)] >= la && pb[len(pa)] < ha
	default:
		return lb < 0 || pa[len(pb)] >= lb && pa[len(pb)] < hb
	}
}

func (m *Machine) acc(key string, path []int32, lo, hi int32, write bool) {
	g := m.g
	st := m.st
	if st.flags["norace"] > 0 {
		return
	}
	if st.acc == nil {
		st.acc = map[string][]accRec{}
	}
	recs := st.acc[key]
	idx := -1
	for i := range recs {
		r := &recs[i]
		if r.tid == g.id {
			if r.write == write && r.lo == lo && r.hi == hi && len(r.path) == len(path) && accOverlap(path, -1, -1, r.path, -1, -1) {
				idx = i
			}
			continue
		}
		if (write || r.write) && r.clk > g.vc[r.tid] && accOverlap(path, lo, hi, r.path, r.lo, r.hi) {
			if m.raceRelevant(r.where) {
				k := "read"
				if write {
					k = "write"
				}
				k2 := "read"
				if r.write {
					k2 = "write"
				}
				m.run.failure(m, "race", fmt.Sprintf("data race: %s at%s and %s at%s", k, m.where(), k2, r.where), st.model)
			}
			return
		}
	}
	if idx >= 0 && recs[idx].clk == g.vc[g.id] {
		return
	}
	nr := accRec{path: path, lo: lo, hi: hi, tid: g.id, clk: g.vc[g.id], write: write, where: m.where()}
	if idx >= 0 {
		recs = append([]accRec{}, recs...)
		recs[idx] = nr
	} else {
		recs = append(recs, nr)
	}
	st.acc[key] = recs
}

func (m *Machine) raceRelevant(other string) bool {
	for _, s := range m.run.raceExclude {
		if strings.Contains(other, s) || strings.Contains(m.where(), s) {
			return false
		}
	}
	return true
}

// ---- channels ----

func (m *Machine) ownChan(p *Ptr) *ChanObj {
	o := m.ownObj(p.obj)
	c, ok := o.root.(*ChanObj)
	if !ok {
		m.unsupported("channel is %T", o.root)
	}
	if c.gen == m.st.gen {
		return c
	}
	n := *c
	n.gen = m.st.gen
	n.buf = append([]Value{}, c.buf...)
	n.vc = append([]VC{}, c.vc...)
	n.recvq = append([]ChanWaiter{}, c.recvq...)
	n.sendq = append([]ChanWaiter{}, c.sendq...)
	o.root = &n
	return &n
}

func (m *Machine) getChan(p *Ptr) *ChanObj {
	c, ok := m.loadRaw(p).(*ChanObj)
	if !ok {
		m.unsupported("channel is %T", m.loadRaw(p))
	}
	return c
}

func (m *Machine) dequeue(gid int) {
	g := m.st.gs[gid]
	for _, p := range g.chans {
		c := m.ownChan(p)
		f := func(q []ChanWaiter) []ChanWaiter {
			var r []ChanWaiter
			for _, w := range q {
				if w.gid != gid {
					r = append(r, w)
				}
			}
			return r
		}
		c.recvq, c.sendq = f(c.recvq), f(c.sendq)
	}
	g.chans = nil
}

func (m *Machine) wakeG(gid int, v Value, panicMsg string) {
	g := m.st.gs[gid]
	m.dequeue(gid)
	g.status = gRun
	g.woken = true
	g.wake = v
	g.wakePanic = panicMsg
	if m.g != nil && m.st.parOn > 0 {
		g.vc = g.vc.join(m.g.vc)
		m.g.vc = m.g.vc.join(g.vc)
		m.g.vc[m.g.id]++
	}
}

// trySend performs a send if possible. ok=false: would block.
func (m *Machine) trySend(p *Ptr, v Value) (ok, panicked bool) {
	c := m.getChan(p)
	if c.closed {
		m.rtPanicPlain("send on closed channel")
		return true, true
	}
	if len(c.recvq) > 0 {
		w := c.recvq[0]
		m.wakeG(w.gid, Tuple{v, tTrue, Const(uint64(w.sel), 64)}, "")
		return true, false
	}
	if len(c.buf) < c.cap {
		c = m.ownChan(p)
		m.freeze(v)
		c.buf = append(c.buf, v)
		c.vc = append(c.vc, m.g.vc.clone())
		if m.st.parOn > 0 {
			m.g.vc = m.g.vc.clone()
			m.g.vc[m.g.id]++
		}
		return true, false
	}
	return false, false
}

func (m *Machine) tryRecv(p *Ptr) (v Value, ok bool, ready bool) {
	c := m.getChan(p)
	if len(c.buf) > 0 {
		c = m.ownChan(p)
		v = c.buf[0]
		c.buf = c.buf[1:]
		if len(c.vc) > 0 {
			m.g.vc = m.g.vc.join(c.vc[0])
			c.vc = c.vc[1:]
		}
		if len(c.sendq) > 0 {
			w := c.sendq[0]
			m.wakeG(w.gid, Tuple{w.val, tTrue, Const(uint64(w.sel), 64)}, "")
			c = m.ownChan(p)
			c.buf = append(c.buf, w.val)
			c.vc = append(c.vc, m.st.gs[w.gid].vc.clone())
		}
		return v, true, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		m.wakeG(w.gid, Tuple{w.val, tTrue, Const(uint64(w.sel), 64)}, "")
		return w.val, true, true
	}
	if c.closed {
		if c.closeVC != nil {
			m.g.vc = m.g.vc.join(c.closeVC)
		}
		return zero(c.et), false, true
	}
	return nil, false, false
}

func (m *Machine) rtPanicPlain(msg string) {
	m.doPanic(Iface{typ: m.eng.rtErr, val: cstr(msg)})
}

func (m *Machine) chanSend(fr *Frame, x *ssa.Send) {
	g := m.g
	p := m.val(fr, x.Chan).(*Ptr)
	if g.woken {
		g.woken = false
		if g.wakePanic != "" {
			m.rtPanicPlain(g.wakePanic)
			return
		}
		m.next()
		return
	}
	if p == nil {
		m.block("send on nil channel")
		return
	}
	if !m.visible("chan", p.key()) {
		return
	}
	v := m.val(fr, x.X)
	ok, pan := m.trySend(p, v)
	if pan {
		return
	}
	if ok {
		m.next()
		return
	}
	c := m.ownChan(p)
	m.freeze(v)
	c.sendq = append(c.sendq, ChanWaiter{gid: g.id, val: v, sel: -1})
	g.chans = []*Ptr{p}
	m.block("channel send")
}

func (m *Machine) chanRecv(fr *Frame, x *ssa.UnOp) {
	g := m.g
	p := m.val(fr, x.X).(*Ptr)
	fin := func(v Value, ok bool) {
		if x.CommaOk {
			m.set(nil, x, Tuple{v, Bool(ok)})
		} else {
			m.set(nil, x, v)
		}
		m.next()
	}
	if g.woken {
		g.woken = false
		t := g.wake.(Tuple)
		fin(t[0], t[1].(*Term) == tTrue)
		return
	}
	if p == nil {
		m.block("receive on nil channel")
		return
	}
	if !m.visible("chan", p.key()) {
		return
	}
	v, ok, ready := m.tryRecv(p)
	if ready {
		fin(v, ok)
		return
	}
	c := m.ownChan(p)
	c.recvq = append(c.recvq, ChanWaiter{gid: g.id, sel: -1})
	g.chans = []*Ptr{p}
	m.block("channel receive")
}

func (m *Machine) chanClose(p *Ptr) {
	if p == nil {
		m.rtPanicPlain("close of nil channel")
		return
	}
	c := m.ownChan(p)
	if c.closed {
		m.rtPanicPlain("close of closed channel")
		return
	}
	c.closed = true
	c.closeVC = m.g.vc.clone()
	if m.st.parOn > 0 {
		m.g.vc = m.g.vc.clone()
		m.g.vc[m.g.id]++
	}
	for _, w := range append([]ChanWaiter{}, c.recvq...) {
		m.wakeG(w.gid, Tuple{zero(c.et), tFalse, Const(uint64(w.sel), 64)}, "")
	}
	for _, w := range append([]ChanWaiter{}, m.getChan(p).sendq...) {
		m.wakeG(w.gid, Tuple{w.val, tFalse, Const(uint64(w.sel), 64)}, "send on closed channel")
	}
}

func (m *Machine) selectOp(fr *Frame, x *ssa.Select) {
	g := m.g
	// result: (index, recvOk, recv values...)
	result := func(idx int, ok bool, v Value) {
		r := Tuple{Const(uint64(int64(idx)), 64), Bool(ok)}
		for i, s := range x.States {
			if s.Dir == types.RecvOnly {
				if i == idx {
					r = append(r, v)
				} else {
					r = append(r, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		m.set(nil, x, r)
		m.next()
	}
	if g.woken {
		g.woken = false
		if g.wakePanic != "" {
			m.rtPanicPlain(g.wakePanic)
			return
		}
		t := g.wake.(Tuple)
		idx := int(t[2].(*Term).Int())
		result(idx, t[1].(*Term) == tTrue, t[0])
		return
	}
	if !m.visible("select", "") {
		return
	}
	var ready []int
	for i, s := range x.States {
		p := m.val(fr, s.Chan).(*Ptr)
		if p == nil {
			continue
		}
		c := m.getChan(p)
		if s.Dir == types.SendOnly {
			if c.closed || len(c.recvq) > 0 || len(c.buf) < c.cap {
				ready = append(ready, i)
			}
		} else if len(c.buf) > 0 || len(c.sendq) > 0 || c.closed {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := ready[m.choose(len(ready), "select")]
		s := x.States[k]
		fr = m.own()
		p := m.val(fr, s.Chan).(*Ptr)
		if s.Dir == types.SendOnly {
			if _, pan := m.trySend(p, m.val(fr, s.Send)); pan {
				return
			}
			result(k, false, nil)
			return
		}
		v, ok, _ := m.tryRecv(p)
		result(k, ok, v)
		return
	}
	if !x.Blocking {
		result(-1, false, nil)
		return
	}
	for i, s := range x.States {
		p := m.val(fr, s.Chan).(*Ptr)
		if p == nil {
			continue
		}
		c := m.ownChan(p)
		if s.Dir == types.SendOnly {
			v := m.val(fr, s.Send)
			m.freeze(v)
			c.sendq = append(c.sendq, ChanWaiter{gid: g.id, val: v, sel: i})
		} else {
			c.recvq = append(c.recvq, ChanWaiter{gid: g.id, sel: i})
		}
		g.chans = append(g.chans[:len(g.chans):len(g.chans)], p)
	}
	m.block("select")
}
