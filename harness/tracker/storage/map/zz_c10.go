package gomap

import (
	"encoding/binary"
	"net/netip"

	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzStored lists every peer value that the writers or the initial database
// store for a pair.
func zzStored(r *zzRef, ths [][]zzAct, h storage.Hash, id storage.PeerID) (l []*zzEnt) {
	for _, e := range r.ents {
		if e.h == h && e.id == id {
			l = append(l, e)
		}
	}
	for _, t := range ths {
		for _, a := range t {
			if a.kind == 0 && a.h == h && a.id == id {
				l = append(l, &zzEnt{h: h, id: id, ip: a.ip, port: a.port, complete: a.complete, seen: zzw.BaseTime})
			}
		}
	}
	return
}

// zzWriters draws two writer operations (one in each of up to two threads).
func zzWriters(threads int) [][]zzAct {
	a, b := zzDrawAct([][2]int{{0, 0}}, 3), zzDrawAct([][2]int{{0, 0}, {0, 1}}, 3)
	if zzvnd.Choice("threads", threads) == 1 {
		return [][]zzAct{{a}, {b}}
	}
	return [][]zzAct{{a, b}}
}

func zzReadPar(db *Memory, ths [][]zzAct, read func()) {
	fs := []func(){read}
	for i := range ths {
		t := ths[i]
		fs = append(fs, func() {
			for k := range t {
				t[k].run(db)
			}
		})
	}
	zzvnd.Par(fs...)
}

//verif:prop=C10 time=200 reach=done bounds="every interleaving of one compact peer list with two operations in one or two other threads, on a swarm of 0..2 peers (fresh or expired) with arbitrary addresses, ports and completeness; data races on all accesses"
func VC10Compact() {
	zzh.Setup()
	now := zzClock()
	db := new(Memory)
	db.make()
	r := zzInit(db, zzvnd.Choice("init", 4), now)
	ths := zzWriters(2)
	var p4, p6 []byte
	zzReadPar(db, ths, func() { p4, p6 = db.PeerListBytes(zzH[0], 3) })
	zzvnd.Assert(len(p6) == 0, "no IPv6 peers are listed")
	zzvnd.Assert(len(p4)%6 == 0 && len(p4) <= 12, "the list holds whole entries of distinct peers")
	for i := 0; i+6 <= len(p4); i += 6 {
		ok := false
		for p := 0; p < 2; p++ {
			for _, e := range zzStored(r, ths, zzH[0], storage.PeerID{byte(1 + p)}) {
				ok = zzvnd.Or(ok, zzvnd.EqBytes(p4[i:i+6], zzCompact(e)))
			}
		}
		zzvnd.Assert(ok, "every listed peer was stored as a whole")
	}
	zzvnd.Reach("done")
}

//verif:prop=C10 time=120 reach=done bounds="every interleaving of one dictionary peer list or counter read with two operations in one or two other threads, on a swarm of 0..2 peers with fixed addresses and ports"
func VC10List() {
	zzh.Setup()
	now := zzClock()
	db := new(Memory)
	db.make()
	r := zzInit(db, zzvnd.Choice("init", 4), now)
	ths := zzWriters(2)
	for i, t := range ths {
		for k := range t {
			t[k].ip, t[k].port = netip.AddrFrom4([4]byte{1, byte(i), byte(k), 9}), uint16(7000+10*i+k)
		}
	}
	if zzvnd.Choice("read", 2) == 0 {
		var l [][]byte
		zzReadPar(db, ths, func() { l = db.PeerList(zzH[0], 3, false) })
		zzvnd.Assert(len(l) <= 2, "the list holds distinct peers")
		for _, x := range l {
			ok := false
			for p := 0; p < 2; p++ {
				id := storage.PeerID{byte(1 + p)}
				for _, e := range zzStored(r, ths, zzH[0], id) {
					ok = zzvnd.Or(ok, zzvnd.EqBytes(x, []byte(zzPeerDict(e))))
				}
			}
			zzvnd.Assert(ok, "every listed peer was stored as a whole")
		}
	} else {
		var c, i int
		zzReadPar(db, ths, func() {
			a, b := db.HashStats(zzH[0])
			c, i = int(a), int(b)
		})
		zzvnd.Assert(zzvnd.And(c+i <= 2, zzvnd.And(c >= 0, i >= 0)), "the counters are those of one state")
		some := false
		for n := 0; n <= len(ths[0]); n++ {
			if len(ths) > 1 {
				some = true
				break
			}
			s := r.clone()
			for k := 0; k < n; k++ {
				ths[0][k].sim(s, *now)
				if ths[0][k].kind == 2 {
					some = true // a pass is not atomic
				}
			}
			wc, wi := s.counts(zzH[0])
			some = zzvnd.Or(some, zzvnd.And(c == wc, i == wi))
		}
		zzvnd.Assert(some, "the counters are those of a state the swarm was in")
	}
	zzvnd.Reach("done")
}

//verif:prop=C10 time=250 reach=done bounds="every interleaving of one backup encoding with two operations in one (thorough: or two) other threads, on a swarm of 0..2 peers (fresh or expired) with arbitrary addresses, ports and completeness"
func VC10Backup() {
	zzh.Setup()
	now := zzClock()
	db := new(Memory)
	db.make()
	r := zzInit(db, zzvnd.Choice("init", 4), now)
	ths := zzWriters(zzvnd.Bound(1, 2))
	var b []byte
	var err error
	zzReadPar(db, ths, func() { b, err = db.encodeBinary() })
	zzvnd.Assert(err == nil, "a backup is taken")
	var back Memory
	n, hs, err := back.decodeBinary(b)
	zzvnd.Assert(err == nil, "a backup taken concurrently decodes")
	if err != nil {
		return
	}
	zzvnd.Assert(hs >= len(back.hashmap), "the backup lists every swarm")
	got := 0
	for h, pm := range back.hashmap {
		for id, p := range pm.Peers {
			got++
			ok := false
			for _, e := range zzStored(r, ths, h, id) {
				ok = zzvnd.Or(ok, zzvnd.And(zzvnd.And(zzSameIP(p.IP, e.ip), p.Port == e.port), zzvnd.And(zzvnd.Iff(p.Complete, e.complete), p.LastSeen == e.seen)))
			}
			zzvnd.Assert(ok, "every peer in the backup was stored as a whole")
		}
		c := 0
		for _, p := range pm.Peers {
			c += zzvnd.B2I(p.Complete)
		}
		zzvnd.Assert(int(pm.Complete) == c && int(pm.Incomplete) == len(pm.Peers)-c, "restored counters match the restored peers")
	}
	_ = n
	_ = binary.LittleEndian
	zzvnd.Reach("done")
}
