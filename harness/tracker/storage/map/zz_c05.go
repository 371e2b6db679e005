package gomap

import (
	"net/netip"

	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C05 time=150 reach=done bounds="every sequence of up to 3 (thorough 4) announces, stops and expiry passes over arbitrary hashes, peer ids and IPv4 addresses (all aliasings, so addresses are shared and changed), completeness and clock readings"
func VC05History() {
	zzh.Setup()
	now := zzClock()
	db := new(Memory)
	db.make()
	var r zzRef
	var hs []storage.Hash
	n := zzvnd.Bound(3, 4)
	for i := 0; i < n; i++ {
		zzOp(db, &r, now, 1, &hs)
		zzCheckStats(&r)
	}
	zzvnd.Reach("done")
}

//verif:prop=C05 time=150 reach=done bounds="restart from a backup of up to 3 peers over arbitrary hashes, IPv4 or IPv6 addresses (all aliasings) and completeness, then one more operation"
func VC05Restart() {
	zzh.Setup()
	now := zzClock()
	db := new(Memory)
	db.make()
	var r zzRef
	n := zzvnd.Choice("peers", 4)
	for i := 0; i < n; i++ {
		h, id := zzHash("hash"), storage.PeerID{byte(i)}
		ip, complete := zzAddr("ip", 2), zzvnd.Bool("complete")
		db.Save(ip, 1, complete, h, id)
		r.save(ip, 1, complete, h, id, *now)
	}
	b, err := db.encodeBinary()
	zzvnd.Assert(err == nil, "the database encodes")
	// the statistics of a new process are zero
	for _, e := range r.live() {
		db.Drop(e.h, e.id)
	}
	zzCheckStats(&zzRef{})
	db = new(Memory)
	_, _, err = db.decodeBinary(b)
	zzvnd.Assert(err == nil, "the encoded database decodes")
	zzvnd.Assert(db.SyncExpvars() == nil, "the statistics synchronise")
	zzCheckStats(&r)
	var hs []storage.Hash
	if n > 0 {
		e := r.ents[0]
		switch zzvnd.Choice("then", 3) {
		case 0:
			db.Drop(e.h, e.id)
			r.drop(e.h, e.id)
		case 1:
			ip, complete := zzAddr("ip", 1), zzvnd.Bool("complete")
			db.Save(ip, 1, complete, e.h, e.id)
			r.save(ip, 1, complete, e.h, e.id, *now)
		case 2:
			*now += 1000
			db.Trim()
			r.trim(*now, 600)
		}
	}
	_ = hs
	zzCheckStats(&r)
	zzvnd.Reach("done")
}

//verif:prop=C05 time=60 reach=done bounds="0..70000 other peers sharing one address, then any three operations on two peers at that address or another"
func VC05Crowd() {
	zzh.Setup()
	zzClock()
	db := new(Memory)
	db.make()
	h := storage.Hash{1}
	nc := zzvnd.Int("crowd", 0, 70000)
	zzCrowd(db, h, nc, 0)
	crowd := netip.AddrFrom4([4]byte{10, 0, 0, 1})
	if zzvnd.Symbolic() {
		stats.Seeds.Add(int64(nc))
		if nc > 0 {
			stats.ZZAdd(crowd, nc)
		}
	}
	other := netip.AddrFrom4([4]byte{10, 0, 0, 2})
	var at [2]int // 0 absent, 1 at the crowd's address, 2 at the other
	check := func() {
		live, a, b := 0, nc > 0, false
		for _, x := range at {
			if x > 0 {
				live++
			}
			if x == 1 {
				a = true
			} else if x == 2 {
				b = true
			}
		}
		zzvnd.Assert(stats.Seeds.Load() == int64(nc+live), "total seeds equal the complete peers stored")
		zzvnd.Assert(stats.IPStats.Total() == zzvnd.B2I(a)+zzvnd.B2I(b), "total addresses equal the distinct addresses stored")
	}
	check()
	for k := 0; k < 3; k++ {
		p := zzvnd.Choice("peer", 2)
		id := storage.PeerID{0xaa, byte(p)}
		at[p] = zzvnd.Choice("do", 3)
		switch at[p] {
		case 0:
			db.Drop(h, id)
		case 1:
			db.Save(crowd, 7, true, h, id)
		case 2:
			db.Save(other, 7, true, h, id)
		}
		check()
	}
	zzvnd.Reach("done")
}
