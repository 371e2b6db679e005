package udp

import (
	"net"
	"net/netip"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C12 time=200 reach=accepted,refused bounds="up to 2 (thorough 3) connects from arbitrary (possibly equal) sources with arbitrary drawn ids, then one announce or 1-hash scrape with an arbitrary connection id from an arbitrary source; one other peer stored"
func VC12Validate() {
	zzw.RandHook = func(n uint64) uint64 { return uint64(zzvnd.Range64("rand", 0, 1<<62)) }
	s := zzServe(nil)
	h := storage.Hash{1}
	s.db.Save(netip.AddrFrom4([4]byte{192, 0, 2, 1}), 7, true, h, storage.PeerID{9})
	type issued struct {
		a  netip.AddrPort
		id uint64
	}
	var ref []issued
	n := zzvnd.Choice("connects", zzvnd.Bound(3, 4))
	for i := 0; i < n; i++ {
		from := zzRemote("c", 3)
		ref = append(ref, issued{zzAddrOf(from), s.connect(from)})
	}
	from := zzRemote("r", 3)
	at := zzAddrOf(from)
	id, tx := zzvnd.U64("id"), zzvnd.U32("tx")
	valid := false
	for _, x := range ref {
		if x.a == at {
			valid = x.id == id // a later connect replaces the id
		}
	}
	before := gomap.ZZPeers(s.db)
	conns := s.u.Connections()
	var req []byte
	announce := zzvnd.Bool("announce")
	if announce {
		a := zzAnn{id: id, tx: tx, hash: h[:], peer: zzvnd.Bytes("peer", 20), left: 1, event: uint32(zzvnd.Choice("event", 4)), numwant: 5, port: 6881}
		req = a.bytes()
	} else {
		req = append(zzReq(id, 2, tx), h[:]...)
	}
	r := s.one(req, from)
	zzvnd.Assert(s.u.Connections() == conns, "only connects change the connection ids")
	if valid {
		zzvnd.Assert(len(r) >= 8 && zzGet(r, 0, 4) != 3, "a request with the issued id is accepted")
		zzvnd.Reach("accepted")
		return
	}
	zzvnd.Assert(zzIsError(r, tx), "a request with any other id gets an error")
	zzvnd.Assert(zzSamePeers(before, gomap.ZZPeers(s.db)), "a request with any other id changes nothing")
	zzvnd.Reach("refused")
}

//verif:prop=C12 time=60 reach=done bounds="a connect id used from the same address and another port, and from another address and the same port; arbitrary ids"
func VC12Neighbour() {
	zzw.RandHook = func(n uint64) uint64 { return uint64(zzvnd.Range64("rand", 0, 1<<62)) }
	s := zzServe(nil)
	a := zzRemote("a", 3)
	b := &net.UDPAddr{IP: append(net.IP{}, a.IP...), Port: a.Port}
	if zzvnd.Bool("port") {
		b.Port = int(zzvnd.U16("bport"))
		zzvnd.Assume(b.Port != a.Port)
	} else {
		k := len(b.IP) - 1 - zzvnd.Choice("which", 4)
		b.IP[k] = zzvnd.U8("byte")
		zzvnd.Assume(b.IP[k] != a.IP[k])
	}
	id := s.connect(a)
	if zzvnd.Bool("both") {
		other := s.connect(b)
		zzvnd.Assume(other != id)
	}
	tx := zzvnd.U32("tx")
	req := append(zzReq(id, 2, tx), zzvnd.Bytes("hash", 20)...)
	zzvnd.Assert(zzIsError(s.one(req, b), tx), "an id works only from the address and port it was issued to")
	r := s.one(req, a)
	zzvnd.Assert(zzGet(r, 0, 4) == 2, "an id works from the address and port it was issued to")
	zzvnd.Reach("done")
}

//verif:prop=C12 time=60 reach=done bounds="one announce with an arbitrary connection id and no prior connect while validation is off"
func VC12Off() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	a := zzAnn{id: zzvnd.U64("id"), tx: zzvnd.U32("tx"), hash: zzvnd.Bytes("hash", 20), peer: zzvnd.Bytes("peer", 20), left: zzvnd.U64("left"), numwant: 5, port: 6881}
	r := s.one(a.bytes(), zzRemote("r", 3))
	zzvnd.Assert(zzGet(r, 0, 4) == 1 && len(gomap.ZZPeers(s.db)) == 1, "without validation announces are accepted")
	zzvnd.Reach("done")
}
