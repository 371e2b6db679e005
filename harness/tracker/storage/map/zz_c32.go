package gomap

import (
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

// zzOwned checks that every stored peer is stored once and not free as well.
func zzOwned(db *Memory) {
	var all []*storage.Peer
	for _, pm := range db.hashmap {
		for _, p := range pm.Peers {
			all = append(all, p)
		}
	}
	n := len(all)
	for i := 0; i < 4; i++ {
		all = append(all, pools.Peers.Get())
	}
	for i := range all {
		for j := 0; j < i; j++ {
			zzvnd.Assert(all[i] != all[j], "a peer object has one owner")
		}
	}
	for _, p := range all[n:] {
		pools.Peers.Put(p)
	}
}

//verif:prop=C32 time=200 reach=done bounds="every sequence of 4 (thorough 5) announces, stops and expiry passes over arbitrary hashes and ids (all aliasings) and clock readings: no peer object is stored twice or stored while free"
func VC32Peers() {
	zzh.Setup()
	now := zzClock()
	var db Memory
	db.make()
	var r zzRef
	var hs []storage.Hash
	for i := zzvnd.Bound(4, 5); i > 0; i-- {
		zzOp(&db, &r, now, 1, &hs)
		zzOwned(&db)
	}
	zzvnd.Reach("done")
}
