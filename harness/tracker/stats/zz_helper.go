package stats

import "net/netip"

type zzInt interface {
	~int8 | ~int16 | ~int32 | ~int64 | ~int | ~uint16 | ~uint32 | ~uint64
}

func zzAdd[T zzInt](m map[netip.Addr]T, ip netip.Addr, n int) { m[ip] += T(n) }

// ZZAdd accounts for n further peers at ip (the effect of n calls of Inc).
func ZZAdd(ip netip.Addr, n int) { zzAdd(IPStats.submap, ip, n) }

// ZZReset forgets everything counted so far, as a new process would.
func ZZReset() {
	for ip := range IPStats.submap {
		IPStats.Delete(ip)
	}
	Seeds.Store(0)
	Leeches.Store(0)
}
