// Package zzw is the modelled environment of the code under verification:
// clock, randomness, file system, network, processes, database and locks. The
// same Go code runs natively during replay and under the symbolic engine. It
// never touches the real system.
package zzw

import (
	"time"

	"github.com/crimist/trakx/zzvnd"
)

// BaseTime is the default reading of the clock.
const BaseTime = 1700000000

// NowHook, when set, supplies the clock.
var NowHook func() time.Time

// SleepHook, when set, replaces sleeping.
var SleepHook func(time.Duration)

func TimeNow() time.Time {
	if NowHook != nil {
		return NowHook()
	}
	return time.Unix(BaseTime, 0)
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	if SleepHook != nil {
		SleepHook(d)
		return
	}
	select {} // no clock is running: the sleeper never wakes
}

// RandHook, when set, supplies random draws in [0, n) (n = 0: the full range).
var RandHook func(n uint64) uint64

func draw(n uint64) uint64 {
	if RandHook != nil {
		return RandHook(n)
	}
	return 0
}

func RandInt31n(n int32) int32 {
	if n <= 0 {
		panic("invalid argument to Int31n")
	}
	return int32(draw(uint64(n)))
}
func RandInt63n(n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(draw(uint64(n)))
}
func RandIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return int(draw(uint64(n)))
}
func RandInt63() int64   { return int64(draw(1 << 63)) }
func RandInt31() int32   { return int32(draw(1 << 31)) }
func RandInt() int       { return int(draw(1 << 63)) }
func RandUint32() uint32 { return uint32(draw(1 << 32)) }
func RandUint64() uint64 { return draw(0) }
func RandSeed(int64)     {}

func init() { zzvnd.SetLockHook = func(f func()) { LockHook, zzvnd.LockHook = f, f } }
