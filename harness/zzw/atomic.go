package zzw

import "sync/atomic"

type ABool struct{ v atomic.Bool }

func (a *ABool) Load() bool                    { ahook(); return a.v.Load() }
func (a *ABool) Store(x bool)                  { ahook(); a.v.Store(x) }
func (a *ABool) Swap(x bool) bool              { ahook(); return a.v.Swap(x) }
func (a *ABool) CompareAndSwap(o, n bool) bool { ahook(); return a.v.CompareAndSwap(o, n) }

type APointer[T any] struct{ v atomic.Pointer[T] }

func (a *APointer[T]) Load() *T                    { ahook(); return a.v.Load() }
func (a *APointer[T]) Store(x *T)                  { ahook(); a.v.Store(x) }
func (a *APointer[T]) Swap(x *T) *T                { ahook(); return a.v.Swap(x) }
func (a *APointer[T]) CompareAndSwap(o, n *T) bool { ahook(); return a.v.CompareAndSwap(o, n) }

func AtomicAddInt64(p *int64, x int64) int64  { ahook(); return atomic.AddInt64(p, x) }
func AtomicLoadInt64(p *int64) int64          { ahook(); return atomic.LoadInt64(p) }
func AtomicStoreInt64(p *int64, x int64)      { ahook(); atomic.StoreInt64(p, x) }
func AtomicSwapInt64(p *int64, x int64) int64 { ahook(); return atomic.SwapInt64(p, x) }
func AtomicCompareAndSwapInt64(p *int64, o, n int64) bool {
	ahook()
	return atomic.CompareAndSwapInt64(p, o, n)
}

func AtomicAddInt32(p *int32, x int32) int32  { ahook(); return atomic.AddInt32(p, x) }
func AtomicLoadInt32(p *int32) int32          { ahook(); return atomic.LoadInt32(p) }
func AtomicStoreInt32(p *int32, x int32)      { ahook(); atomic.StoreInt32(p, x) }
func AtomicSwapInt32(p *int32, x int32) int32 { ahook(); return atomic.SwapInt32(p, x) }
func AtomicCompareAndSwapInt32(p *int32, o, n int32) bool {
	ahook()
	return atomic.CompareAndSwapInt32(p, o, n)
}

func AtomicAddUint64(p *uint64, x uint64) uint64  { ahook(); return atomic.AddUint64(p, x) }
func AtomicLoadUint64(p *uint64) uint64           { ahook(); return atomic.LoadUint64(p) }
func AtomicStoreUint64(p *uint64, x uint64)       { ahook(); atomic.StoreUint64(p, x) }
func AtomicSwapUint64(p *uint64, x uint64) uint64 { ahook(); return atomic.SwapUint64(p, x) }
func AtomicCompareAndSwapUint64(p *uint64, o, n uint64) bool {
	ahook()
	return atomic.CompareAndSwapUint64(p, o, n)
}

func AtomicAddUint32(p *uint32, x uint32) uint32  { ahook(); return atomic.AddUint32(p, x) }
func AtomicLoadUint32(p *uint32) uint32           { ahook(); return atomic.LoadUint32(p) }
func AtomicStoreUint32(p *uint32, x uint32)       { ahook(); atomic.StoreUint32(p, x) }
func AtomicSwapUint32(p *uint32, x uint32) uint32 { ahook(); return atomic.SwapUint32(p, x) }
func AtomicCompareAndSwapUint32(p *uint32, o, n uint32) bool {
	ahook()
	return atomic.CompareAndSwapUint32(p, o, n)
}
