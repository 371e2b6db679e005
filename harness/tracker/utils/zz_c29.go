package utils

import (
	"time"

	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzTicks runs a periodic task n times. The clock starts at start, a sleep
// ends late and a run takes time as drawn.
func zzTicks(period int64, start int64, n int, late, takes func() int64) {
	now := start // seconds
	const zero = 62135596800 // the start of year 1 before the Unix epoch
	first := start - (start+zero)%period + period
	runs := 0
	slept := false
	zzw.NowHook = func() time.Time { return time.Unix(now, 0) }
	zzw.SleepHook = func(d time.Duration) {
		due := first + int64(runs)*period
		left := due - now
		zzvnd.Assert(int(d/time.Second) <= zzvnd.IteInt(left > 0, int(left), 0), "a task does not wait beyond its boundary")
		zzvnd.Assert(d%time.Second == 0, "boundaries are whole")
		if d > 0 {
			now += int64(d / time.Second)
		}
		now += late()
		slept = true
	}
	_, ended := zzvnd.Catch(func() {
		RunOn(time.Duration(period)*time.Second, func() {
			zzvnd.Assert(slept, "a task yields between runs")
			slept = false
			zzvnd.Assert(now >= first+int64(runs)*period, "a task never runs before its boundary")
			runs++
			now += takes()
			if runs == n {
				panic("enough")
			}
		})
	})
	zzvnd.Assert(ended && runs == n, "a task runs once per boundary")
	zzvnd.Reach("done")
}

//verif:prop=C29 time=300 reach=done bounds="periods of 1 s, 7 s, 1 min, 10 min, 1 h and 1 day; a start at any second of a period; 3 (thorough 5) boundaries; every sleep up to 2^20 s late and every run taking up to 2^20 s"
func VC29Ticks() {
	p := []int64{1, 7, 60, 600, 3600, 86400}[zzvnd.Choice("period", 6)]
	start := zzw.BaseTime + zzvnd.Range64("start", 0, p-1)
	zzTicks(p, start, zzvnd.Bound(3, 5), func() int64 { return zzvnd.Range64("late", 0, 1<<20) }, func() int64 { return zzvnd.Range64("takes", 0, 1<<20) })
}
