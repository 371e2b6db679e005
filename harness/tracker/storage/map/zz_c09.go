package gomap

import (
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C09 time=150 reach=done bounds="every interleaving (at lock operations) of 2 operations (announce, stop, expiry pass) on 3 (hash, peer) pairs with arbitrary addresses, ports and completeness, from 5 initial databases (empty, fresh, expired, mixed, emptied swarm)"
func VC09Two() {
	zzvnd.Flag("norace", 1)
	zzh.Setup()
	now := zzClock()
	pairs := [][2]int{{0, 0}, {0, 1}, {1, 0}}
	init := zzvnd.Choice("init", 5)
	a, b := zzDrawAct(pairs, 3), zzDrawAct(pairs, 3)
	zzvnd.Assume(a.idx <= b.idx) // the threads are interchangeable
	zzConc(init, [][]zzAct{{a}, {b}}, now)
	zzvnd.Reach("done")
}

//verif:prop=C09 time=200 reach=done bounds="every interleaving of 2+1 operations in two threads (thorough 2+2) on 2 peers of one swarm, from a swarm with a fresh or an expired peer or an emptied one (thorough: 5 initial databases)"
func VC09Seq() {
	zzvnd.Flag("norace", 1)
	zzh.Setup()
	now := zzClock()
	pairs := [][2]int{{0, 0}, {0, 1}}
	init := []int{1, 2, 4, 0, 3}[zzvnd.Choice("init", zzvnd.Bound(3, 5))]
	t1 := []zzAct{zzDrawAct(pairs[:1], 3), zzDrawAct(pairs, 3)}
	t2 := []zzAct{zzDrawAct(pairs, 3)}
	if zzvnd.Deep() {
		t2 = append(t2, zzDrawAct(pairs, 3))
	}
	zzConc(init, [][]zzAct{t1, t2}, now)
	zzvnd.Reach("done")
}

//verif:prop=C09 time=200 reach=done bounds="every interleaving of 3 single operations in three threads on one peer (thorough: 2 peers) of one swarm, from a swarm with a fresh or an expired peer (thorough: 5 initial databases)"
func VC09Three() {
	zzvnd.Flag("norace", 1)
	zzh.Setup()
	now := zzClock()
	pairs := [][2]int{{0, 0}, {0, 1}}[:zzvnd.Bound(1, 2)]
	init := []int{1, 2, 4, 0, 3}[zzvnd.Choice("init", zzvnd.Bound(2, 5))]
	a, b, c := zzDrawAct(pairs, 3), zzDrawAct(pairs, 3), zzDrawAct(pairs, 3)
	zzvnd.Assume(a.idx <= b.idx && b.idx <= c.idx) // the threads are interchangeable
	zzConc(init, [][]zzAct{{a}, {b}, {c}}, now)
	zzvnd.Reach("done")
}
