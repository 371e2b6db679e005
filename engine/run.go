package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Failure is one candidate violation found symbolically.
type Failure struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Inputs map[string]uint64 `json:"inputs"`
	Sched  []int             `json:"sched,omitempty"`
	SchedK []string          `json:"sched_kinds,omitempty"`
	Obs    []string          `json:"obs,omitempty"`
	Trace  []string          `json:"trace,omitempty"`
	Par    bool              `json:"par,omitempty"`
}

// Witness is one completed path with a concrete assignment.
type Witness struct {
	Inputs map[string]uint64 `json:"inputs"`
	Sched  []int             `json:"sched,omitempty"`
	SchedK []string          `json:"sched_kinds,omitempty"`
	Obs    []string          `json:"obs,omitempty"`
}

// Run explores one harness.
type Run struct {
	eng  *Engine
	h    *Harness
	lim  Limits
	seed int64

	mu     sync.Mutex
	cond   *sync.Cond
	queue  []*State
	active int
	stop   bool

	fails   map[string][]*Failure
	order   []string
	notes   map[string]int
	ends    map[string]int
	reach   map[string]bool
	unsup   map[string]int
	paths   int
	witness []*Witness
	wseen   int

	forks, asserts, discharged, inconclusive, truncated, instrs, schedPoints int64

	allocLimit  int64
	raceExclude []string
	start       time.Time
	wall        time.Duration
	expiredF    int32
	usedFns     map[string]bool
	feas        int64
	feasOK      int64
	sol         solverStats
}

func (r *Run) note(s string) {
	r.mu.Lock()
	r.notes[s]++
	r.mu.Unlock()
}
func (r *Run) noteOnce(s string) { r.note(s) }

func (r *Run) push(st *State) {
	r.mu.Lock()
	r.queue = append(r.queue, st)
	r.mu.Unlock()
	r.cond.Signal()
}

func (r *Run) expired() bool {
	if atomic.LoadInt32(&r.expiredF) != 0 {
		return true
	}
	if time.Since(r.start) > time.Duration(r.lim.TimeMs)*time.Millisecond {
		atomic.StoreInt32(&r.expiredF, 1)
		return true
	}
	return false
}

func (m *Machine) concretise(mod *Model) (map[string]uint64, []string) {
	in := map[string]uint64{}
	for _, x := range m.st.inputs {
		in[x.key] = mod.Eval(x.t)
	}
	var obs []string
	for _, o := range m.st.obs {
		obs = append(obs, o.label+"="+o.text(mod))
	}
	return in, obs
}

func (o Obs) text(mod *Model) string {
	if o.kind == "int" {
		return fmt.Sprint(mod.Eval(o.terms[0]))
	}
	var sb strings.Builder
	sb.WriteByte('x')
	for _, t := range o.terms {
		fmt.Fprintf(&sb, "%02x", mod.Eval(t))
	}
	return sb.String()
}

const maxFailModels = 6

func (r *Run) failure(m *Machine, kind, msg string, mod *Model) {
	key := kind + ": " + msg
	r.mu.Lock()
	n := len(r.fails[key])
	r.mu.Unlock()
	if n >= maxFailModels {
		return
	}
	in, obs := m.concretise(mod)
	f := &Failure{Kind: kind, Msg: msg, Inputs: in, Obs: obs,
		Sched: append([]int{}, m.st.sched...), SchedK: append([]string{}, m.st.schedK...),
		Trace: append([]string{}, m.st.trace...), Par: m.st.parSeq > 0}
	r.mu.Lock()
	if len(r.fails[key]) == 0 {
		r.order = append(r.order, key)
	}
	r.fails[key] = append(r.fails[key], f)
	if len(r.order) > 40 {
		r.stop = true
		atomic.StoreInt32(&r.expiredF, 1)
	}
	r.mu.Unlock()
}

func (r *Run) take() *State {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return nil
		}
		if n := len(r.queue); n > 0 {
			st := r.queue[n-1]
			r.queue = r.queue[:n-1]
			r.active++
			return st
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return nil
		}
		r.cond.Wait()
	}
}

func (r *Run) done(m *Machine, st *State, end string, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.active--
	r.paths++
	r.ends[end]++
	if err != nil {
		r.unsup[err.Error()]++
	}
	for k := range st.reach {
		r.reach[k] = true
	}
	if end == "done" {
		r.wseen++
		k := -1
		const want = 6
		if len(r.witness) < want {
			k = len(r.witness)
			r.witness = append(r.witness, nil)
		} else if h := (uint64(r.wseen)*2654435761 + uint64(r.seed)*97) % uint64(r.wseen); h < want {
			k = int(h)
		}
		if k >= 0 {
			in, obs := m.concretise(st.model)
			r.witness[k] = &Witness{Inputs: in, Obs: obs, Sched: append([]int{}, st.sched...), SchedK: append([]string{}, st.schedK...)}
		}
	}
	if r.paths >= r.lim.MaxPaths && len(r.queue)+r.active > 0 {
		if !r.stop {
			r.notes["path limit reached"]++
			r.truncated++
		}
		r.stop = true
	}
	if r.expired() && len(r.queue) > 0 {
		if !r.stop {
			r.notes[fmt.Sprintf("time limit reached with %d states unexplored", len(r.queue))]++
			r.truncated += int64(len(r.queue))
		}
		r.stop = true
	}
	r.cond.Broadcast()
}

// Explore runs the harness function symbolically over all paths.
func (e *Engine) Explore(h *Harness, fn *ssa.Function, lim Limits, workers int, cross bool, seed int64) *Run {
	r := &Run{eng: e, h: h, lim: lim, seed: seed, fails: map[string][]*Failure{}, notes: map[string]int{}, ends: map[string]int{},
		reach: map[string]bool{}, unsup: map[string]int{}, usedFns: map[string]bool{}, start: time.Now(), raceExclude: h.RaceExclude, allocLimit: int64(h.Alloc)}
	r.cond = sync.NewCond(&r.mu)
	before := gstats
	e.resetUsed()
	st := e.newState(fn)
	r.queue = append(r.queue, st)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol := NewSolver(min(lim.QueryMs, 300), "z3", "-in")
			sol.retryMs = lim.QueryMs
			if cross {
				sol.cross = NewSolver(lim.QueryMs, "cvc5", "--lang=smt2", "--incremental", "-q", fmt.Sprintf("--tlimit-per=%d", min(lim.QueryMs, 1000)))
			}
			defer sol.Close()
			for {
				s := r.take()
				if s == nil {
					return
				}
				m := &Machine{eng: e, run: r, sol: sol, nbase: len(e.base)}
				end, err := m.runState(s)
				atomic.AddInt64(&r.instrs, m.local)
				// a sample of completed paths is shown satisfiable as a whole, so
				// that nothing was discharged on a contradictory path
				n := int64(1 << 40)
				if end == "done" {
					n = atomic.AddInt64(&r.feas, 1)
				}
				if n <= 1000 {
					// slicing relies on every path's model satisfying its condition
					for p := m.st.pc; p != nil; p = p.parent {
						if m.st.model.Eval(p.cond) != 1 {
							r.note("a path's model contradicts its path condition")
							atomic.AddInt64(&r.inconclusive, 1)
							break
						}
					}
				}
				if n <= 32 {
					if res := sol.CheckAll(m.st.pc); res == rUnsat {
						r.note("a completed path has a contradictory path condition")
						atomic.AddInt64(&r.inconclusive, 1)
					} else if res == rSat {
						atomic.AddInt64(&r.feasOK, 1)
					}
				}
				r.done(m, m.st, end, err)
			}
		}()
	}
	wg.Wait()
	r.wall = time.Since(r.start)
	r.sol = solverStats{
		queries: gstats.queries - before.queries, sat: gstats.sat - before.sat, unsat: gstats.unsat - before.unsat,
		unknown: gstats.unknown - before.unknown, nanos: gstats.nanos - before.nanos,
		crossChecked: gstats.crossChecked - before.crossChecked, crossDisagree: gstats.crossDisagree - before.crossDisagree, badModels: gstats.badModels - before.badModels, cached: gstats.cached - before.cached}
	e.infos.Range(func(k, v interface{}) bool {
		fi := v.(*FuncInfo)
		if fi.isRepo && atomic.LoadInt32(&fi.used) > 0 {
			r.usedFns[trimPkg(fi.name)] = true
		}
		return true
	})
	return r
}

func (e *Engine) resetUsed() {
	e.infos.Range(func(k, v interface{}) bool {
		atomic.StoreInt32(&v.(*FuncInfo).used, 0)
		return true
	})
}

func emptyState() *State {
	return &State{gen: newGen(), baseMod: map[int]*Obj{}, facts: map[uint32]bool{}, model: NewModel(map[string]uint64{}),
		occ: map[string]int{}, locks: map[string]*LockState{}, reach: map[string]bool{}, flags: map[string]int{},
		pools: map[string][]Value{}, notes: map[string]bool{}, waits: map[string]int{}}
}

func (e *Engine) newState(fn *ssa.Function) *State {
	st := emptyState()
	m := &Machine{eng: e, st: st, nbase: len(e.base)}
	g := &Gor{id: 0, vc: VC{0: 1}}
	st.gs = []*Gor{g}
	m.g = g
	m.pushFrame(&Closure{fn: fn}, nil, fkRoot, nil)
	return st
}

func sortedCounts(m map[string]int) []string {
	var r []string
	for k, v := range m {
		r = append(r, fmt.Sprintf("%s (x%d)", k, v))
	}
	sort.Strings(r)
	if len(r) > 12 {
		r = append(r[:12:12], fmt.Sprintf("and %d more", len(r)-12))
	}
	return r
}
