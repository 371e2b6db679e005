package gomap

import (
	"net/netip"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzAct is one concurrent operation; its values are drawn beforehand.
type zzAct struct {
	idx      int
	kind     int // 0 announce, 1 stop, 2 expiry pass
	h        storage.Hash
	id       storage.PeerID
	ip       netip.Addr
	port     uint16
	complete bool
}

var zzH = [2]storage.Hash{{1}, {2}}

// zzDrawAct draws an operation on one of the given (hash, id) pairs.
func zzDrawAct(pairs [][2]int, kinds int) (a zzAct) {
	k := zzvnd.Choice("act", 2*len(pairs)+kinds-2)
	a.idx = k
	if k >= 2*len(pairs) {
		a.kind = 2
		return
	}
	p := pairs[k/2]
	a.kind = k % 2
	a.h, a.id = zzH[p[0]], storage.PeerID{byte(1 + p[1])}
	if a.kind == 0 {
		a.ip = netip.AddrFrom4([4]byte{10, 0, 0, zzvnd.U8("actip")})
		a.port, a.complete = zzvnd.U16("actport"), zzvnd.Bool("actcomplete")
	}
	return
}

func (a *zzAct) run(db *Memory) {
	switch a.kind {
	case 0:
		db.Save(a.ip, a.port, a.complete, a.h, a.id)
	case 1:
		db.Drop(a.h, a.id)
	case 2:
		db.Trim()
	}
}

func (a *zzAct) sim(r *zzRef, now int64) {
	switch a.kind {
	case 0:
		r.save(a.ip, a.port, a.complete, a.h, a.id, now)
	case 1:
		r.drop(a.h, a.id)
	case 2:
		r.trim(now, 600)
	}
}

func (r *zzRef) clone() *zzRef {
	n := new(zzRef)
	for _, e := range r.ents {
		c := *e
		n.ents = append(n.ents, &c)
	}
	return n
}

// zzMatches reports, without forking on the values, whether the database
// holds exactly the peers of r.
func zzMatches(db *Memory, r *zzRef) bool {
	n := 0
	for _, pm := range db.hashmap {
		n += len(pm.Peers)
	}
	l := r.live()
	if n != len(l) {
		return false
	}
	ok := true
	for _, e := range l {
		pm := db.hashmap[e.h]
		if pm == nil {
			return false
		}
		p := pm.Peers[e.id]
		if p == nil {
			return false
		}
		ok = zzvnd.And(ok, zzvnd.And(zzvnd.And(zzSameIP(p.IP, e.ip), p.Port == e.port), zzvnd.And(zzvnd.Iff(p.Complete, e.complete), p.LastSeen == e.seen)))
	}
	return ok
}

func zzSameIP(a, b netip.Addr) bool {
	x, y := a.AsSlice(), b.AsSlice()
	return len(x) == len(y) && zzvnd.EqBytes(x, y)
}

// zzOrders calls f for every merge of the threads' operations.
func zzOrders(ths [][]zzAct, f func([]*zzAct)) {
	pos := make([]int, len(ths))
	var cur []*zzAct
	var rec func()
	rec = func() {
		end := true
		for t := range ths {
			if pos[t] < len(ths[t]) {
				end = false
				cur = append(cur, &ths[t][pos[t]])
				pos[t]++
				rec()
				pos[t]--
				cur = cur[:len(cur)-1]
			}
		}
		if end {
			f(cur)
		}
	}
	rec()
}

// zzInit stores an initial swarm: 0 nothing, 1 a fresh peer, 2 an expired
// peer, 3 a fresh and an expired peer, 4 an empty swarm; the clock is then
// at the base time.
func zzInit(db *Memory, kind int, now *int64) *zzRef {
	r := new(zzRef)
	put := func(id byte, age int64) {
		*now = zzw.BaseTime - age
		ip := netip.AddrFrom4([4]byte{10, 0, 0, 200 + id})
		db.Save(ip, 1000+uint16(id), id == 1, zzH[0], storage.PeerID{id})
		r.save(ip, 1000+uint16(id), id == 1, zzH[0], storage.PeerID{id}, *now)
	}
	switch kind {
	case 1:
		put(1, 5)
	case 2:
		put(1, 5000)
	case 3:
		put(1, 5000)
		put(2, 5)
	case 4:
		put(1, 5)
		db.Drop(zzH[0], storage.PeerID{1})
		r.drop(zzH[0], storage.PeerID{1})
	}
	*now = zzw.BaseTime
	return r
}

// zzQuiescent checks the invariants that hold whenever no operation runs.
func zzQuiescent(db *Memory) {
	var seeds, leeches int
	var recs []*storage.Peer
	var ips []netip.Addr
	for h, pm := range db.hashmap {
		c, i := 0, 0
		for _, p := range pm.Peers {
			c += zzvnd.B2I(p.Complete)
			i += zzvnd.B2I(!p.Complete)
			recs = append(recs, p)
			ips = append(ips, p.IP)
		}
		gc, gi := db.HashStats(h)
		zzvnd.Assert(zzvnd.And(int(gc) == c, int(gi) == i), "swarm counters match the stored peers")
		seeds += c
		leeches += i
	}
	zzvnd.Assert(int(stats.Seeds.Load()) == seeds, "total seeds match the stored peers")
	zzvnd.Assert(int(stats.Leeches.Load()) == leeches, "total leeches match the stored peers")
	// distinct addresses, without forking
	d := 0
	for i := range ips {
		dup := false
		for j := 0; j < i; j++ {
			dup = zzvnd.Or(dup, zzSameIP(ips[i], ips[j]))
		}
		d += zzvnd.B2I(!dup)
	}
	zzvnd.Assert(stats.IPStats.Total() == d, "total addresses match the stored peers")
	for k := 0; k < 2; k++ {
		recs = append(recs, pools.Peers.Get())
	}
	for i := range recs {
		for j := 0; j < i; j++ {
			zzvnd.Assert(recs[i] != recs[j], "no peer record is shared")
		}
	}
}

// zzConc runs the threads' operations concurrently and checks the outcome.
func zzConc(init int, ths [][]zzAct, now *int64) {
	var db Memory
	db.make()
	r := zzInit(&db, init, now)
	var fs []func()
	for i := range ths {
		t := ths[i]
		fs = append(fs, func() {
			for k := range t {
				t[k].run(&db)
			}
		})
	}
	zzvnd.Par(fs...)
	some := false
	zzOrders(ths, func(o []*zzAct) {
		s := r.clone()
		for _, a := range o {
			a.sim(s, *now)
		}
		some = zzvnd.Or(some, zzMatches(&db, s))
	})
	zzvnd.Assert(some, "the outcome equals some sequential order of the operations")
	zzQuiescent(&db)
}
