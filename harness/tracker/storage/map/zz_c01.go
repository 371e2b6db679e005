package gomap

import (
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C01 time=120 reach=done bounds="every sequence of up to 3 (thorough 4) announces, stops and expiry passes over arbitrary 20-byte hashes and peer ids (all aliasings), arbitrary IPv4 or IPv6 addresses, ports, completeness and clock readings in [0,2^36] s; expiry 600 s"
func VC01History() {
	zzh.Setup()
	now := zzClock()
	var db Memory
	db.make()
	var r zzRef
	var hs []storage.Hash
	n := zzvnd.Bound(3, 4)
	for i := 0; i < n; i++ {
		zzOp(&db, &r, now, 2, &hs)
		zzCheckPeers(&db, &r)
	}
	zzvnd.Reach("done")
}

//verif:prop=C01 time=120 reach=done bounds="every sequence of 6 (thorough 8) announces and stops of up to 3 peers of one arbitrary swarm, with arbitrary ports and completeness and a clock that may step over the expiry with an expiry pass"
func VC01Swarm() {
	zzh.Setup()
	now := zzClock()
	var db Memory
	db.make()
	var r zzRef
	h := zzHash("hash")
	known := 0
	for i := zzvnd.Bound(6, 8); i > 0; i-- {
		op := zzvnd.Choice("op", 3)
		if op == 2 {
			*now += 601
			db.Trim()
			r.trim(*now, 600)
			zzCheckPeers(&db, &r)
			continue
		}
		n := known
		if n < 3 && op == 0 {
			n++
		}
		if n == 0 {
			continue
		}
		k := zzvnd.Choice("peer", n)
		if k == known {
			known++
		}
		id := storage.PeerID{byte(k)}
		if op == 0 {
			port, complete := zzvnd.U16("port"), i&1 == 0
			db.Save(zzSomeIP, port, complete, h, id)
			r.save(zzSomeIP, port, complete, h, id, *now)
		} else {
			db.Drop(h, id)
			r.drop(h, id)
		}
		zzCheckPeers(&db, &r)
	}
	zzvnd.Reach("done")
}
