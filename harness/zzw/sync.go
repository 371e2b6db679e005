package zzw

import (
	"sync"
	"sync/atomic"

	"github.com/crimist/trakx/zzvnd"
)

// LockHook is called before every lock operation (native schedule replay).
var LockHook func()

func hook() {
	if h := LockHook; h != nil {
		h()
	}
}

func ahook() {
	if zzvnd.AtomicsVisible {
		hook()
	}
}

type Mutex struct{ mu sync.Mutex }

func (m *Mutex) Lock()         { hook(); m.mu.Lock() }
func (m *Mutex) Unlock()       { m.mu.Unlock() }
func (m *Mutex) TryLock() bool { hook(); return m.mu.TryLock() }

type RWMutex struct{ mu sync.RWMutex }

func (m *RWMutex) Lock()                { hook(); m.mu.Lock() }
func (m *RWMutex) Unlock()              { m.mu.Unlock() }
func (m *RWMutex) RLock()               { hook(); m.mu.RLock() }
func (m *RWMutex) RUnlock()             { m.mu.RUnlock() }
func (m *RWMutex) TryLock() bool        { hook(); return m.mu.TryLock() }
func (m *RWMutex) TryRLock() bool       { hook(); return m.mu.TryRLock() }
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Pool is a last-in first-out sync.Pool: it recycles as eagerly as possible.
// PoolDrop, when set, decides at each Get whether what was recycled is gone.
var PoolDrop func() bool

type Pool struct {
	New   func() any
	items []any
	mu    sync.Mutex
	real  sync.Pool
}

func (p *Pool) Get() any {
	if zzvnd.Stress() > 0 {
		if x := p.real.Get(); x != nil {
			return x
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	zzvnd.Step("pools")
	if !zzvnd.Symbolic() {
		p.mu.Lock()
	}
	zzvnd.RaceOff()
	var x any
	ok := false
	if PoolDrop != nil && len(p.items) > 0 && PoolDrop() {
		p.items = nil
	}
	if n := len(p.items); n > 0 {
		x = p.items[n-1]
		p.items = p.items[:n-1]
		ok = true
	}
	zzvnd.RaceOn()
	if !zzvnd.Symbolic() {
		p.mu.Unlock()
	}
	if ok {
		zzvnd.HB(x)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if zzvnd.Stress() > 0 {
		p.real.Put(x)
		return
	}
	zzvnd.HB(x)
	if !zzvnd.Symbolic() {
		p.mu.Lock()
	}
	zzvnd.RaceOff()
	p.items = append(p.items, x)
	zzvnd.RaceOn()
	if !zzvnd.Symbolic() {
		p.mu.Unlock()
	}
}

type AInt64 struct{ v atomic.Int64 }

func (a *AInt64) Load() int64                    { ahook(); return a.v.Load() }
func (a *AInt64) Store(x int64)                  { ahook(); a.v.Store(x) }
func (a *AInt64) Add(x int64) int64              { ahook(); return a.v.Add(x) }
func (a *AInt64) Swap(x int64) int64             { ahook(); return a.v.Swap(x) }
func (a *AInt64) CompareAndSwap(o, n int64) bool { ahook(); return a.v.CompareAndSwap(o, n) }

type AInt32 struct{ v atomic.Int32 }

func (a *AInt32) Load() int32                    { ahook(); return a.v.Load() }
func (a *AInt32) Store(x int32)                  { ahook(); a.v.Store(x) }
func (a *AInt32) Add(x int32) int32              { ahook(); return a.v.Add(x) }
func (a *AInt32) Swap(x int32) int32             { ahook(); return a.v.Swap(x) }
func (a *AInt32) CompareAndSwap(o, n int32) bool { ahook(); return a.v.CompareAndSwap(o, n) }

type AUint64 struct{ v atomic.Uint64 }

func (a *AUint64) Load() uint64                    { ahook(); return a.v.Load() }
func (a *AUint64) Store(x uint64)                  { ahook(); a.v.Store(x) }
func (a *AUint64) Add(x uint64) uint64             { ahook(); return a.v.Add(x) }
func (a *AUint64) Swap(x uint64) uint64            { ahook(); return a.v.Swap(x) }
func (a *AUint64) CompareAndSwap(o, n uint64) bool { ahook(); return a.v.CompareAndSwap(o, n) }

type AUint32 struct{ v atomic.Uint32 }

func (a *AUint32) Load() uint32                    { ahook(); return a.v.Load() }
func (a *AUint32) Store(x uint32)                  { ahook(); a.v.Store(x) }
func (a *AUint32) Add(x uint32) uint32             { ahook(); return a.v.Add(x) }
func (a *AUint32) Swap(x uint32) uint32            { ahook(); return a.v.Swap(x) }
func (a *AUint32) CompareAndSwap(o, n uint32) bool { ahook(); return a.v.CompareAndSwap(o, n) }
