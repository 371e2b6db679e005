package gomap

import (
	"net/netip"
	"strconv"
	"time"

	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzEnt is one stored peer of the reference database.
type zzEnt struct {
	h        storage.Hash
	id       storage.PeerID
	ip       netip.Addr
	port     uint16
	complete bool
	seen     int64
	on       bool
}

type zzRef struct{ ents []*zzEnt }

func (r *zzRef) find(h storage.Hash, id storage.PeerID) *zzEnt {
	for _, e := range r.ents {
		if e.on && e.h == h && e.id == id {
			return e
		}
	}
	return nil
}

func (r *zzRef) save(ip netip.Addr, port uint16, complete bool, h storage.Hash, id storage.PeerID, now int64) {
	e := r.find(h, id)
	if e == nil {
		e = &zzEnt{h: h, id: id, on: true}
		r.ents = append(r.ents, e)
	}
	e.ip, e.port, e.complete, e.seen = ip, port, complete, now
}

func (r *zzRef) drop(h storage.Hash, id storage.PeerID) {
	if e := r.find(h, id); e != nil {
		e.on = false
	}
}

// trim removes what is older than max seconds and returns the removed count.
func (r *zzRef) trim(now, max int64) (n int) {
	for _, e := range r.ents {
		if e.on && now-e.seen > max {
			e.on = false
			n++
		}
	}
	return
}

func (r *zzRef) live() (l []*zzEnt) {
	for _, e := range r.ents {
		if e.on {
			l = append(l, e)
		}
	}
	return
}

func (r *zzRef) hashes() (l []storage.Hash) {
next:
	for _, e := range r.live() {
		for _, h := range l {
			if h == e.h {
				continue next
			}
		}
		l = append(l, e.h)
	}
	return
}

// counts of one swarm.
func (r *zzRef) counts(h storage.Hash) (complete, incomplete int) {
	for _, e := range r.live() {
		if e.h == h {
			complete += zzvnd.B2I(e.complete)
			incomplete += zzvnd.B2I(!e.complete)
		}
	}
	return
}

func (r *zzRef) size(h storage.Hash) (n int) {
	for _, e := range r.live() {
		if e.h == h {
			n++
		}
	}
	return
}

func zzSameAddr(a, b netip.Addr) bool { return a == b }

// zzCheckPeers compares all stored peers with the reference.
func zzCheckPeers(db *Memory, r *zzRef) {
	n := 0
	for _, pm := range db.hashmap {
		n += len(pm.Peers)
	}
	zzvnd.Assert(n == len(r.live()), "exactly the live peers are stored")
	for _, e := range r.live() {
		pm := db.hashmap[e.h]
		if pm == nil {
			zzvnd.Fail("the swarm of a live peer is stored")
			continue
		}
		p := pm.Peers[e.id]
		if p == nil {
			zzvnd.Fail("a live peer is stored under its hash and id")
			continue
		}
		zzvnd.Assert(p.IP == e.ip, "a stored peer has its announced address")
		zzvnd.Assert(p.Port == e.port, "a stored peer has its announced port")
		zzvnd.Assert(p.Complete == e.complete, "a stored peer has its announced completeness")
		zzvnd.Assert(p.LastSeen == e.seen, "a stored peer has the time of its latest announce")
	}
}

// zzCheckCounts compares the reported counters of the given hashes with the reference.
func zzCheckCounts(db *Memory, r *zzRef, hs []storage.Hash) {
	for _, h := range hs {
		c, i := r.counts(h)
		gc, gi := db.HashStats(h)
		zzvnd.Assert(int(gc) == c, "complete count equals the complete peers stored")
		zzvnd.Assert(int(gi) == i, "incomplete count equals the incomplete peers stored")
	}
}

func zzDistinct(r *zzRef) int {
	var l []netip.Addr
next:
	for _, e := range r.live() {
		for _, a := range l {
			if a == e.ip {
				continue next
			}
		}
		l = append(l, e.ip)
	}
	return len(l)
}

// zzCheckStats compares the global statistics with the reference.
func zzCheckStats(r *zzRef) {
	var c, i int
	for _, e := range r.live() {
		c += zzvnd.B2I(e.complete)
		i += zzvnd.B2I(!e.complete)
	}
	zzvnd.Assert(int(stats.Seeds.Load()) == c, "total seeds equal the complete peers stored")
	zzvnd.Assert(int(stats.Leeches.Load()) == i, "total leeches equal the incomplete peers stored")
	zzvnd.Assert(stats.IPStats.Total() == zzDistinct(r), "total addresses equal the distinct addresses stored")
}

// zzClock makes the clock return the value it points to.
func zzClock() *int64 {
	t := new(int64)
	*t = zzw.BaseTime
	zzw.NowHook = func() time.Time { return time.Unix(*t, 0) }
	return t
}

func zzHash(l string) (h storage.Hash)  { zzvnd.Fill(l, h[:]); return }
func zzID(l string) (id storage.PeerID) { zzvnd.Fill(l, id[:]); return }

// zzAddr is an arbitrary IPv4, IPv6 or (kinds 3) IPv4-mapped address.
func zzAddr(l string, kinds int) netip.Addr {
	switch zzvnd.Choice(l+"kind", kinds) {
	case 0:
		var b [4]byte
		zzvnd.Fill(l, b[:])
		return netip.AddrFrom4(b)
	case 1:
		var b [16]byte
		zzvnd.Fill(l, b[:])
		return netip.AddrFrom16(b)
	}
	b := [16]byte{10: 0xff, 11: 0xff}
	zzvnd.Fill(l, b[12:])
	return netip.AddrFrom16(b)
}

// zzOp performs one arbitrary announce, stop or expiry pass.
func zzOp(db *Memory, r *zzRef, now *int64, kinds int, hs *[]storage.Hash) {
	*now = zzvnd.Range64("now", 0, 1<<36)
	switch zzvnd.Choice("op", 3) {
	case 0:
		h, id := zzHash("hash"), zzID("id")
		*hs = append(*hs, h)
		ip, port, complete := zzAddr("ip", kinds), zzvnd.U16("port"), zzvnd.Bool("complete")
		db.Save(ip, port, complete, h, id)
		r.save(ip, port, complete, h, id, *now)
	case 1:
		h, id := zzHash("hash"), zzID("id")
		*hs = append(*hs, h)
		db.Drop(h, id)
		r.drop(h, id)
	case 2:
		db.Trim()
		r.trim(*now, 600)
	}
}

type zzUint interface {
	~uint16 | ~uint32 | ~uint64 | ~uint | ~int | ~int32 | ~int64
}

func zzAddTo[T zzUint](p *T, n int) { *p += T(n) }

// zzCrowd puts nc complete and ni incomplete further peers into the swarm. The
// native run announces each; the symbolic run accounts for them in the
// counters (they are never touched again).
func zzCrowd(db *Memory, h storage.Hash, nc, ni int) {
	ip := netip.AddrFrom4([4]byte{10, 0, 0, 1})
	if !zzvnd.Symbolic() {
		for i := 0; i < nc+ni; i++ {
			db.Save(ip, 1, i < nc, h, storage.PeerID{0xcc, byte(i), byte(i >> 8), byte(i >> 16)})
		}
		return
	}
	id := storage.PeerID{0xcd}
	db.Save(ip, 1, true, h, id) // creates the swarm
	db.Drop(h, id)
	pm := db.hashmap[h]
	zzAddTo(&pm.Complete, nc)
	zzAddTo(&pm.Incomplete, ni)
}

// zzPeerDict is the dictionary form of a listed peer.
func zzPeerDict(e *zzEnt) string {
	return "d7:peer id20:" + string(e.id[:]) + zzPeerDictNoID(e)[1:]
}

func zzPeerDictNoID(e *zzEnt) string {
	ip := e.ip.String()
	return "d2:ip" + strconv.Itoa(len(ip)) + ":" + ip + "4:porti" + strconv.Itoa(int(e.port)) + "ee"
}

func zzCompact(e *zzEnt) []byte {
	b := e.ip.AsSlice()
	return append(b, byte(e.port>>8), byte(e.port))
}

var zzSomeIP = netip.AddrFrom4([4]byte{192, 0, 2, 1})

// zzDB is a database of up to max peers with arbitrary contents.
func zzDB(max int, kinds int) (*Memory, *zzRef) {
	now := zzClock()
	db := new(Memory)
	db.make()
	r := new(zzRef)
	n := zzvnd.Choice("peers", max+1)
	for i := 0; i < n; i++ {
		h, id := zzHash("hash"), zzID("id")
		*now = zzvnd.Range64("seen", -(1 << 40), 1<<40)
		ip, port, complete := zzAddr("ip", kinds), zzvnd.U16("port"), zzvnd.Bool("complete")
		db.Save(ip, port, complete, h, id)
		r.save(ip, port, complete, h, id, *now)
	}
	return db, r
}

// zzConsistent checks that the counters of every swarm match its peers.
func zzConsistent(db *Memory) {
	for _, pm := range db.hashmap {
		c := 0
		for _, p := range pm.Peers {
			c += zzvnd.B2I(p.Complete)
			zzvnd.Assert(p.IP.IsValid(), "a restored peer has an address")
		}
		zzvnd.Assert(zzvnd.And(int(pm.Complete) == c, int(pm.Incomplete) == len(pm.Peers)-c), "restored counters match the restored peers")
	}
}
