// Package zzvnd is the verification harness library. It exists only through a
// build overlay. Under the symbolic engine the functions below are intercepted;
// natively they read their values from a replay file.
package zzvnd

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type replayData struct {
	Inputs map[string]uint64 `json:"inputs"`
	Sched  []int             `json:"sched"`
	Stress int               `json:"stress"`
	Deep   bool              `json:"deep"`
}

var (
	data     replayData
	occ      = map[string]int{}
	occMu    sync.Mutex
	failures []string
	observed []string
	reached  = map[string]bool{}
	assumeOK = true
)

// Load resets the native run state from the replay file.
func Load(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	data = replayData{}
	if err := json.Unmarshal(b, &data); err != nil {
		panic(err)
	}
	Reset()
}

func Reset() {
	occ = map[string]int{}
	failures = nil
	observed = nil
	reached = map[string]bool{}
	assumeOK = true
}

func Stress() int { return data.Stress }

// Deep reports the thorough tier.
func Deep() bool { return data.Deep }

// Bound is quick or thorough depending on the tier.
func Bound(quick, thorough int) int {
	if Deep() {
		return thorough
	}
	return quick
}

// Report prints what the native run saw.
func Report() {
	for _, f := range observed {
		fmt.Println("VERIF-OBS: " + f)
	}
	if !assumeOK {
		fmt.Println("VERIF-ASSUME: violated")
	}
	var rs []string
	for r := range reached {
		rs = append(rs, r)
	}
	sort.Strings(rs)
	fmt.Println("VERIF-REACH: " + strings.Join(rs, " "))
}

func Failed() bool { return len(failures) > 0 }

type assumeFail struct{}

func next(l string) string {
	occMu.Lock()
	defer occMu.Unlock()
	k := l + "#" + strconv.Itoa(occ[l])
	occ[l]++
	return k
}

func get(l string) uint64 { return data.Inputs[next(l)] }

// Symbolic reports whether the code runs under the engine.
func Symbolic() bool { return false }

// RaceOff and RaceOn bracket accesses the race detector ignores.
func RaceOff() {}
func RaceOn()  {}

// HB orders everything before a call with x before later calls with x.
func HB(x any) {}

// Settle lets all other goroutines run until they block.
func Settle() {
	buf := make([]byte, 1<<16)
	for i, quiet := 0, 0; i < 200 && quiet < 2; i++ {
		realSleep(10 * time.Millisecond)
		quiet++
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n")[1:] {
			if i := strings.IndexByte(g, '['); i > 0 && strings.HasPrefix(g[i:], "[run") {
				quiet = 0
			}
		}
	}
}

// Log adds a line to a counterexample's trace.
func Log(s string) { fmt.Println("VERIF-LOG: " + s) }

// Opaque and Unopaque model a reflection-based codec as a lossless opaque token.
func Opaque(v any) []byte           { panic("native") }
func Unopaque(b []byte, p any) bool { panic("native") }

var registry = map[string]func(){}

// Register makes a harness available to Main.
func Register(name string, f func()) { registry[name] = f }

// Main is the native replay program: args are harness name and replay file.
func Main() {
	if len(os.Args) < 3 {
		os.Exit(3)
	}
	f := registry[os.Args[1]]
	if f == nil {
		fmt.Println("VERIF-MISSING")
		os.Exit(3)
	}
	Load(os.Args[2])
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	func() {
		defer func() {
			if v := recover(); v != nil {
				if IsAssumeFail(v) {
					return
				}
				fmt.Printf("VERIF-PANIC: %v\n", v)
			}
		}()
		f()
		fmt.Println("VERIF-DONE")
	}()
	runtime.ReadMemStats(&b)
	fmt.Printf("VERIF-ALLOC: %d\n", b.TotalAlloc-a.TotalAlloc)
	Report()
	os.Exit(0)
}

func Bool(l string) bool  { return get(l) != 0 }
func U8(l string) uint8   { return uint8(get(l)) }
func U16(l string) uint16 { return uint16(get(l)) }
func U32(l string) uint32 { return uint32(get(l)) }
func U64(l string) uint64 { return get(l) }
func I32(l string) int32  { return int32(get(l)) }
func I64(l string) int64  { return int64(get(l)) }

// Int returns a value in [lo, hi] (lo >= 0).
func Int(l string, lo, hi int) int {
	k := next(l)
	v, ok := data.Inputs[k]
	if !ok {
		return lo
	}
	return int(v)
}

// Range64 returns a signed value in [lo, hi].
func Range64(l string, lo, hi int64) int64 {
	k := next(l)
	v, ok := data.Inputs[k]
	if !ok {
		return lo
	}
	return int64(v) + lo
}

// Choice returns 0..n-1, one execution path each.
func Choice(l string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(get(l))
}

func Bytes(l string, n int) []byte {
	b := make([]byte, n)
	Fill(l, b)
	return b
}

func Fill(l string, b []byte) {
	for i := range b {
		b[i] = U8(l)
	}
}

func Str(l string, n int) string { return string(Bytes(l, n)) }

func Assume(b bool) {
	if !b {
		assumeOK = false
		panic(assumeFail{})
	}
}

func IsAssumeFail(v any) bool { _, ok := v.(assumeFail); return ok }

func Assert(b bool, msg string) {
	if !b {
		occMu.Lock()
		if len(failures) < 100 { // said at once: the run may not end
			failures = append(failures, "assert: "+msg)
			fmt.Println("VERIF-FAIL: assert: " + msg)
		}
		occMu.Unlock()
	}
}

func Fail(msg string) { Assert(false, msg) }

func Reach(l string) {
	occMu.Lock()
	reached[l] = true
	occMu.Unlock()
}

// Non-forking boolean connectives.
func And(a, b bool) bool { return a && b }
func Or(a, b bool) bool  { return a || b }
func Imp(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool { return a == b }

// IteInt is a non-forking conditional.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

// EqBytes compares without forking.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }
func EqStr(a, b string) bool   { return a == b }

// Concrete forks until v is a constant.
func Concrete(v int) int { return v }

// AtomicsVisible makes atomic operations scheduling points in replays.
var AtomicsVisible bool

// Flag sets an engine option for the current path.
func Flag(name string, v int) {
	if name == "atomics" {
		AtomicsVisible = v > 0
	}
	flags[name] = v
}

var flags = map[string]int{}

// LockHook is what Step calls in a replay.
var LockHook func()

// Step is a scheduling point if the flag is set.
func Step(flag string) {
	if h := LockHook; h != nil && flags[flag] > 0 {
		h()
	}
}

// AllocLimit makes larger symbolic allocations a failure.
func AllocLimit(n int) {}

// Observe records a value that the native run must reproduce.
func Observe(label string, v any) {
	occMu.Lock()
	defer occMu.Unlock()
	observed = append(observed, label+"="+obsText(v))
}

func obsText(v any) string {
	switch x := v.(type) {
	case []byte:
		return "x" + hex.EncodeToString(x)
	case string:
		return "x" + hex.EncodeToString([]byte(x))
	case bool:
		if x {
			return "1"
		}
		return "0"
	case int:
		return strconv.FormatUint(uint64(x), 10)
	case int64:
		return strconv.FormatUint(uint64(x), 10)
	case int32:
		return strconv.FormatUint(uint64(uint32(x)), 10)
	case uint:
		return strconv.FormatUint(uint64(x), 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case uint32:
		return strconv.FormatUint(uint64(x), 10)
	case uint16:
		return strconv.FormatUint(uint64(x), 10)
	case uint8:
		return strconv.FormatUint(uint64(x), 10)
	}
	return "?"
}

// Catch runs f and reports whether it panicked (the panic value is returned).
func Catch(f func()) (v any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			v = recover()
			if IsAssumeFail(v) {
				panic(v)
			}
		}
	}()
	f()
	panicked = false
	return
}

// ---- concurrency ----

type parCtl struct {
	mu     sync.Mutex
	parked map[int]chan struct{}
	done   map[int]bool
	ids    map[string]int
	free   bool
}

var ctl *parCtl

// Hook is installed into sync's lock operations during a scheduled replay.
func (c *parCtl) hook() {
	c.mu.Lock()
	id, ok := c.ids[goid()]
	if !ok || c.free {
		c.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	c.parked[id] = ch
	c.mu.Unlock()
	<-ch
}

func goid() string {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	return f[1]
}

// SetLockHook is set by the replay glue (std overlay) when available.
var SetLockHook func(func())

var parSeq int

const parBase = 1

// Par runs the functions concurrently and waits for all of them. The engine
// explores every interleaving of their lock operations.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	parSeq++
	if len(data.Sched) == 0 || SetLockHook == nil {
		start := make(chan struct{})
		for _, f := range fs {
			f := f
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		close(start)
		wg.Wait()
		return
	}
	c := &parCtl{parked: map[int]chan struct{}{}, done: map[int]bool{}, ids: map[string]int{}}
	ctl = c
	var reg sync.WaitGroup
	start := make(chan struct{})
	for i, f := range fs {
		i, f := i, f // the module's language version shares loop variables
		wg.Add(1)
		reg.Add(1)
		go func() {
			defer func() {
				c.mu.Lock()
				c.done[parBase+i] = true
				c.mu.Unlock()
				wg.Done()
			}()
			c.mu.Lock()
			c.ids[goid()] = parBase + i
			c.mu.Unlock()
			reg.Done()
			<-start
			f()
		}()
	}
	reg.Wait()
	SetLockHook(c.hook)
	close(start)
	waitFor := func(id int, max time.Duration) bool {
		for t := time.Now(); time.Since(t) < max; {
			c.mu.Lock()
			_, p := c.parked[id]
			d := c.done[id]
			c.mu.Unlock()
			if p || d {
				return true
			}
			realSleep(200 * time.Microsecond)
		}
		return false
	}
	for i := range fs {
		waitFor(parBase+i, 300*time.Millisecond)
	}
	lost := 0 // waits for goroutines that block elsewhere, at most 1.5 s in all
	for _, id := range data.Sched {
		if id/100 != parSeq || id%100 == 0 {
			continue // another group's, or a goroutine started within this one
		}
		id %= 100
		if lost > 15 {
			break
		}
		if !waitFor(id, 100*time.Millisecond) {
			lost++
			continue
		}
		c.mu.Lock()
		ch := c.parked[id]
		delete(c.parked, id)
		c.mu.Unlock()
		if ch == nil {
			continue
		}
		close(ch)
		waitFor(id, 30*time.Millisecond)
	}
	c.mu.Lock()
	c.free = true
	for id, ch := range c.parked {
		close(ch)
		delete(c.parked, id)
	}
	c.mu.Unlock()
	SetLockHook(nil)
	wg.Wait()
}

var realSleep = time.Sleep

// Unsupported ends a path that reaches a part of the environment without a
// model; the check reports it as a reduction of what it covered.
func Unsupported(msg string) { panic("no model of " + msg) }
