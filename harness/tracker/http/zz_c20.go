package http

import (
	"net/netip"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzShape checks a reply of the given kind: "compact", "list", "scrape" (of n
// hashes) or "failure".
func zzShape(out []byte, kind string, n int) {
	r := zzReply(out)
	num := func(v *zzBen, key string) bool { x := v.get(key); return x != nil && x.kind == 'i' && x.i >= 0 }
	switch kind {
	case "failure":
		zzvnd.Assert(zzFailed(r), "a failure reply holds only a failure reason")
	case "compact", "list":
		zzvnd.Assert(num(r, "interval") && num(r, "complete") && num(r, "incomplete"), "an announce reply has interval and counts")
		p, p6 := r.get("peers"), r.get("peers6")
		if kind == "compact" {
			zzvnd.Assert(len(r.k) == 5 && p != nil && p.kind == 's' && p6 != nil && p6.kind == 's', "a compact reply has two peer strings and nothing else")
		} else {
			zzvnd.Assert(len(r.k) == 4 && p != nil && p.kind == 'l', "a reply has a peer list and nothing else")
		}
	case "scrape":
		f := r.get("files")
		zzvnd.Assert(len(r.k) == 1 && f != nil && f.kind == 'd', "a scrape reply has files and nothing else")
		if f == nil {
			return
		}
		zzvnd.Assert(len(f.k) == n, "a scrape reply has one entry per hash")
		for i, e := range f.l {
			zzvnd.Assert(len(f.k[i]) == 20, "a scrape entry is keyed by the hash")
			zzvnd.Assert(e.kind == 'd' && len(e.k) == 2 && num(e, "complete") && num(e, "incomplete"), "a scrape entry has two counts")
		}
	}
}

// zzAsk makes one request of any kind and checks its reply.
func (s *zzSrv) zzAsk(l string, arbitrary bool) {
	hash := make([]byte, 20)
	if arbitrary {
		zzvnd.Fill(l+"hash", hash)
	}
	v := &announceParams{port: "80", hash: string(hash), peerid: string(hash)}
	c := &zzw.Conn{}
	ip := netip.AddrFrom4([4]byte{1, 2, 3, 4})
	if arbitrary && zzvnd.Choice(l+"v6", 2) == 1 {
		ip = netip.MustParseAddr("2001:db8::1")
	}
	switch zzvnd.Choice(l, 7) {
	case 0:
		v.compact = true
		if arbitrary {
			v.event = zzvnd.Str(l+"event", 9)
		}
		s.t.announce(c, v, ip)
		zzShape(c.Out, "compact", 0)
		zzvnd.Reach("compact")
	case 1:
		v.nopeerid = zzvnd.Choice(l+"nopeerid", 2) == 1
		if arbitrary {
			v.numwant = zzOf20(l+"numwant", "", "0", "1")
		}
		s.t.announce(c, v, ip)
		zzShape(c.Out, "list", 0)
		zzvnd.Reach("list")
	case 2:
		v.port = "x"
		s.t.announce(c, v, ip)
		zzShape(c.Out, "failure", 0)
	case 3:
		s.t.clientError(c, zzvnd.Str(l+"msg", zzvnd.Choice(l+"msglen", 12)+1))
		zzShape(c.Out, "failure", 0)
		zzvnd.Reach("failure")
	case 4, 5:
		var p params
		n := zzvnd.Choice(l+"hashes", 3)
		for i := 0; i < n; i++ {
			p[2*i] = hash
		}
		s.t.scrape(c, p)
		zzShape(c.Out, "scrape", n)
		zzvnd.Reach("scrape")
	case 6:
		var p params
		p[0], p[1] = hash, hash[:zzvnd.Choice(l+"short", 20)]
		s.t.scrape(c, p)
		zzShape(c.Out, "failure", 0)
		zzvnd.Reach("badscrape")
	}
}

func zzOf20(l string, texts ...string) string { return texts[zzvnd.Choice(l, len(texts))] }

//verif:prop=C20 time=300 reach=compact,list,failure,scrape,badscrape bounds="two (thorough three) requests in a row sharing recycled encoders, the last with arbitrary hash and id bytes: announces (compact, list with and without ids), scrapes of 0..2 hashes, failures with arbitrary messages of 1..12 bytes, scrapes failing half way; one stored peer with an arbitrary port"
func VC20Replies() {
	s := zzServe(nil)
	s.db.Save(netip.MustParseAddr("2001:db8::9"), zzvnd.U16("speerport"), zzvnd.Bool("scomplete"), storage.Hash{}, storage.PeerID{1})
	for i := zzvnd.Bound(1, 2); i > 0; i-- {
		s.zzAsk("first", false)
	}
	s.zzAsk("last", true)
}

//verif:prop=C20 time=300 reach=done bounds="a list reply of three peers, two with arbitrary ports and arbitrary ids, with and without ids"
func VC20Ports() {
	s := zzServe(nil)
	h := storage.Hash{7}
	for i := 0; i < 2; i++ {
		id := storage.PeerID{byte(i)}
		zzvnd.Fill("id", id[1:])
		s.db.Save(netip.MustParseAddr("2001:db8::9"), zzvnd.U16("speerport"), zzvnd.Bool("scomplete"), h, id)
	}
	c := &zzw.Conn{}
	v := &announceParams{port: "80", hash: string(h[:]), peerid: zzvnd.Str("peerid", 20), nopeerid: zzvnd.Bool("nopeerid"), numwant: "3"}
	s.t.announce(c, v, netip.AddrFrom4([4]byte{1, 2, 3, 4}))
	r := zzReply(c.Out)
	p := r.get("peers")
	zzvnd.Assert(p != nil && p.kind == 'l' && len(p.l) >= 2, "all peers are listed")
	for _, e := range p.l {
		d, rest := zzRead(e.s)
		zzvnd.Assert(e.kind == 's' && d != nil && len(rest) == 0 && d.kind == 'd', "a listed peer is a dictionary")
		k := "peer id,ip,port,"
		if v.nopeerid {
			k = "ip,port,"
		}
		zzvnd.Assert(d.keys() == k, "a listed peer has the documented keys")
	}
	zzvnd.Reach("done")
}

//verif:prop=C20 time=300 conc=40000 reach=done bounds="two requests (each a compact announce, a list announce, a scrape, a scrape failing half way or a failure) handled at the same time on the shared encoder pools, every interleaving at lock and pool operations"
func VC20Concurrent() {
	s := zzServe(nil)
	pools.Dictionaries.Put(pools.Dictionaries.Get())
	run := func(kind int, hash storage.Hash, c *zzw.Conn) {
		v := &announceParams{port: "80", hash: string(hash[:]), peerid: string(hash[:])}
		ip := netip.AddrFrom4([4]byte{1, 2, 3, 4})
		var p params
		p[0] = hash[:]
		switch kind {
		case 0:
			v.compact = true
			s.t.announce(c, v, ip)
		case 1:
			s.t.announce(c, v, ip)
		case 2:
			s.t.scrape(c, p)
		case 3:
			p[1] = hash[:3]
			s.t.scrape(c, p)
		case 4:
			s.t.clientError(c, "no")
		}
	}
	a, b := zzvnd.Choice("a", 5), zzvnd.Choice("b", 5)
	x, y := &zzw.Conn{}, &zzw.Conn{}
	zzvnd.Par(func() { run(a, storage.Hash{1}, x) }, func() { run(b, storage.Hash{2}, y) })
	for i, c := range []*zzw.Conn{x, y} {
		kind := []int{a, b}[i]
		zzShape(c.Out, []string{"compact", "list", "scrape", "failure", "failure"}[kind], 1)
		if kind == 2 {
			f := zzReply(c.Out).get("files")
			zzvnd.Assert(len(f.k[0]) == 20 && f.k[0][0] == byte(i+1), "a scrape reply answers its own request")
		}
		if kind == 0 {
			p := zzReply(c.Out).get("peers")
			zzvnd.Assert(len(p.s) == 6, "a compact reply lists its own swarm")
		}
	}
	zzvnd.Reach("done")
}
