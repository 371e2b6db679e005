package gomap

import (
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C02 time=120 reach=done,restored bounds="every sequence of up to 3 (thorough 4) announces, stops and expiry passes over arbitrary hashes and peer ids (all aliasings), IPv4 addresses, ports, completeness and clock readings; optionally a backup and restore after any step"
func VC02History() {
	zzh.Setup()
	now := zzClock()
	db := new(Memory)
	db.make()
	var r zzRef
	var hs []storage.Hash
	n := zzvnd.Bound(3, 4)
	at := zzvnd.Choice("restore", n+1)
	for i := 0; i < n; i++ {
		zzOp(db, &r, now, 1, &hs)
		if i+1 == at {
			b, err := db.encodeBinary()
			zzvnd.Assert(err == nil, "the database encodes")
			db = new(Memory)
			_, _, err = db.decodeBinary(b)
			zzvnd.Assert(err == nil, "the encoded database decodes")
			zzvnd.Reach("restored")
		}
		zzCheckCounts(db, &r, hs)
	}
	zzvnd.Reach("done")
}

//verif:prop=C02 time=60 reach=done bounds="a swarm of 0..70000 complete and 0..70000 incomplete other peers, then any two operations on two peers of it"
func VC02Large() {
	zzh.Setup()
	zzClock()
	db := new(Memory)
	db.make()
	h := storage.Hash{1}
	nc, ni := zzvnd.Int("crowdcomplete", 0, 70000), zzvnd.Int("crowdincomplete", 0, 70000)
	zzCrowd(db, h, nc, ni)
	check := func(c, i int) {
		gc, gi := db.HashStats(h)
		zzvnd.Assert(int(gc) == nc+c, "complete count of a large swarm is exact")
		zzvnd.Assert(int(gi) == ni+i, "incomplete count of a large swarm is exact")
	}
	check(0, 0)
	var state [2]int // 0 absent, 1 incomplete, 2 complete
	ip := zzAddr("ip", 1)
	for k := 0; k < 3; k++ {
		p := zzvnd.Choice("peer", 2)
		id := storage.PeerID{0xaa, byte(p)}
		switch zzvnd.Choice("do", 3) {
		case 0:
			db.Drop(h, id)
			state[p] = 0
		case 1:
			db.Save(ip, 7, false, h, id)
			state[p] = 1
		case 2:
			db.Save(ip, 7, true, h, id)
			state[p] = 2
		}
		c, i := 0, 0
		for _, s := range state {
			if s == 2 {
				c++
			} else if s == 1 {
				i++
			}
		}
		check(c, i)
	}
	zzvnd.Reach("done")
}
