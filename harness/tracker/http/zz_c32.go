package http

import (
	"net/netip"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C32 time=300 conc=100000 reach=done bounds="two HTTP requests (each a compact announce, a list announce, a scrape or a failure) handled at the same time, recycling eagerly, every interleaving at lock and pool operations with up to 3 (thorough 5) preemptions"
func VC32HTTP() {
	zzvnd.Flag("pools", 1)
	zzvnd.Flag("preempt", zzvnd.Bound(3, 5))
	s := zzServe(nil)
	pools.Dictionaries.Put(pools.Dictionaries.Get())
	run := func(kind int, hash storage.Hash, c *zzw.Conn) {
		v := &announceParams{port: "80", hash: string(hash[:]), peerid: string(hash[:]), compact: kind == 0}
		var p params
		p[0] = hash[:]
		switch kind {
		case 0, 1:
			s.t.announce(c, v, netip.AddrFrom4([4]byte{hash[0], 2, 3, 4}))
		case 2:
			s.t.scrape(c, p)
		case 3:
			s.t.clientError(c, "no")
		}
	}
	kinds := [2]int{zzvnd.Choice("a", 4), zzvnd.Choice("b", 4)}
	conns := [2]*zzw.Conn{{}, {}}
	zzvnd.Par(func() { run(kinds[0], storage.Hash{1}, conns[0]) }, func() { run(kinds[1], storage.Hash{2}, conns[1]) })
	for i, c := range conns {
		r := zzReply(c.Out)
		switch kinds[i] {
		case 0:
			p := r.get("peers")
			zzvnd.Assert(p != nil && string(p.s) == string([]byte{byte(i + 1), 2, 3, 4, 0, 80}), "a reply holds its own request's peers")
		case 1:
			p := r.get("peers")
			zzvnd.Assert(p != nil && len(p.l) == 1, "a reply holds its own request's peers")
		case 2:
			zzvnd.Assert(r.get("files") != nil && len(r.get("files").k) == 1 && r.get("files").k[0][0] == byte(i+1), "a reply holds its own request's swarm")
		case 3:
			zzvnd.Assert(r.get("failure reason") != nil, "a reply holds its own failure")
		}
	}
	zzvnd.Reach("done")
}
