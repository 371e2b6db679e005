package udp

import (
	"net/netip"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C16 time=300 reach=stored,stopped,badport bounds="up to 1 (thorough 2) arbitrary stored peer, then one announce with arbitrary source, hash, peer id, port, left, event and number wanted (any 32-bit value); limits 2 (default) and 3 (maximum)"
func VC16Announce() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	before := zzStore(s, zzvnd.Bound(1, 2))
	var a zzAnn
	a.tx, a.left, a.event, a.numwant, a.port = zzvnd.U32("tx"), zzvnd.U64("left"), zzvnd.U32("event"), zzvnd.U32("numwant"), zzvnd.U16("port")
	a.hash, a.peer = zzvnd.Bytes("hash", 20), zzvnd.Bytes("peer", 20)
	var h storage.Hash
	var id storage.PeerID
	copy(h[:], a.hash)
	copy(id[:], a.peer)
	from := zzRemote("r", 3)
	ip := zzAddrOf(from).Addr()
	s.now = zzvnd.Range64("now", 0, 1<<36)
	r := s.one(a.bytes(), from)
	after := gomap.ZZPeers(s.db)
	if a.port == 0 {
		zzvnd.Assert(zzIsError(r, a.tx), "port zero is refused")
		zzvnd.Assert(zzSamePeers(before, after), "a refused announce stores nothing")
		zzvnd.Reach("badport")
		return
	}
	// the expected database
	var want []gomap.ZZPeer
	for _, p := range before {
		if p.Hash == h && p.ID == id {
			continue
		}
		want = append(want, p)
	}
	if a.event != 3 {
		want = append(want, gomap.ZZPeer{Hash: h, ID: id, IP: ip, Port: a.port, Complete: zzvnd.Or(a.event == 1, a.left == 0), Seen: s.now})
	}
	zzvnd.Assert(zzSamePeers(want, after), "an announce stores exactly the announced peer, and a stop removes it")
	zzvnd.Assert(len(r) >= 20, "an announce reply has 20 bytes or more")
	if len(r) < 20 {
		return
	}
	zzvnd.Assert(zzvnd.And(zzGet(r, 0, 4) == 1, zzGet(r, 4, 4) == uint64(a.tx)), "an announce reply carries the action and transaction id")
	if a.event == 3 {
		zzvnd.Assert(len(r) == 20, "the reply to a stop lists no peers")
		zzvnd.Reach("stopped")
		return
	}
	c, i := zzCounts(want, h)
	zzvnd.Assert(int(zzGet(r, 12, 4)) == i, "the reply reports the leechers after the update")
	zzvnd.Assert(int(zzGet(r, 16, 4)) == c, "the reply reports the seeders after the update")
	zzListed(s, r[20:], a.numwant, want, h, ip)
	zzvnd.Reach("stored")
}

//verif:prop=C16 time=200 reach=done bounds="announce, re-announce and stop by the same arbitrary peer from two arbitrary sources, then a second swarm with the same peer id"
func VC16Sequence() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	hash, peer := zzvnd.Bytes("hash", 20), zzvnd.Bytes("peer", 20)
	other := zzvnd.Bytes("other", 20)
	x, y := zzRemote("x", 2), zzRemote("y", 3)
	var h, o storage.Hash
	copy(h[:], hash)
	copy(o[:], other)
	zzvnd.Assume(h != o)
	a := zzAnn{tx: 1, hash: hash, peer: peer, left: zzvnd.U64("left"), event: uint32(zzvnd.Choice("event", 3)), numwant: 3, port: zzvnd.U16("port")}
	zzvnd.Assume(a.port != 0)
	s.one(a.bytes(), x)
	b := a
	b.hash, b.port = other, zzvnd.U16("oport")
	zzvnd.Assume(b.port != 0)
	s.one(b.bytes(), y)
	l := gomap.ZZPeers(s.db)
	zzvnd.Assert(len(l) == 2, "the same peer id in two swarms is two entries")
	a.left = zzvnd.U64("left2")
	r := s.one(a.bytes(), y)
	zzvnd.Assert(int(zzGet(r, 12, 4))+int(zzGet(r, 16, 4)) == 1, "an announce again replaces the peer")
	for _, p := range gomap.ZZPeers(s.db) {
		zzvnd.Assert(p.IP == zzAddrOf(y).Addr(), "an announce again updates the address")
	}
	a.event = 3
	s.one(a.bytes(), x)
	l = gomap.ZZPeers(s.db)
	zzvnd.Assert(len(l) == 1 && l[0].Hash == o, "a stop removes exactly the announced peer")
	zzvnd.Reach("done")
}

// zzListed checks the peers listed in an announce reply to ip.
func zzListed(s *zzSrv, list []byte, numwant uint32, want []gomap.ZZPeer, h storage.Hash, ip netip.Addr) {
	max := int(s.c.Numwant.Default)
	if w := int32(numwant); w >= 1 {
		max = int(s.c.Numwant.Limit)
		if int(w) < max {
			max = int(w)
		}
	}
	size := 18
	if ip.Is4() {
		size = 6
	}
	zzvnd.Assert(len(list)%size == 0, "the reply lists whole peers of the requester's address family")
	n := len(list) / size
	zzvnd.Assert(n <= max, "the reply lists at most as many peers as wanted and allowed")
	var fam []gomap.ZZPeer
	all := true // every stored peer of the swarm is of the requester's family
	k := 0
	for _, p := range want {
		if p.Hash != h {
			continue
		}
		k++
		if p.IP.Is4() == ip.Is4() {
			fam = append(fam, p)
		} else {
			all = false
		}
	}
	zzvnd.Assert(zzh.Injects(n, len(fam), func(i, j int) bool {
		e := list[i*size : (i+1)*size]
		return zzvnd.And(zzvnd.EqBytes(e[:size-2], fam[j].IP.AsSlice()), zzGet(e, size-2, 2) == uint64(fam[j].Port))
	}), "the reply lists only peers of the swarm, each once")
	if all {
		if k > max {
			k = max
		}
		zzvnd.Assert(n == k, "the reply lists as many peers as wanted, allowed and known")
	}
}

//verif:prop=C16 time=300 reach=done bounds="a swarm of up to 2 (thorough 3) peers with arbitrary addresses and ports, an arbitrary requester of either family, any number wanted; default 0 or 1 and maximum 1 (thorough: default 0 to 2, maximum 2 and two requests in a row through the recycled buffers)"
func VC16List() {
	limit := zzvnd.Bound(1, 2)
	s := zzServe(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate = false
		c.Numwant.Limit = uint(limit)
		c.Numwant.Default = uint(zzvnd.Choice("default", limit+1))
	})
	h := storage.Hash{1}
	n := zzvnd.Choice("stored", limit+2)
	for i := 0; i < n; i++ {
		s.db.Save(zzAP("s", 2).Addr(), zzvnd.U16("speerport"), true, h, storage.PeerID{byte(i)})
	}
	for i := 0; i < limit; i++ {
		a := zzAnn{tx: 7, hash: h[:], peer: append([]byte{0xee, byte(i)}, make([]byte, 18)...), left: 1, numwant: zzvnd.U32("numwant"), port: 9}
		from := zzRemote("r", 3)
		r := s.one(a.bytes(), from)
		zzvnd.Assert(len(r) >= 20, "an announce reply has 20 bytes or more")
		zzListed(s, r[20:], a.numwant, gomap.ZZPeers(s.db), h, zzAddrOf(from).Addr())
		a.event = 3
		s.one(a.bytes(), from)
	}
	zzvnd.Reach("done")
}
