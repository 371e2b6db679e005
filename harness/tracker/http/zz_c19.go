package http

import (
	"net/netip"

	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzvnd"
)

func zzOf(l string, texts ...string) string { return texts[zzvnd.Choice(l, len(texts))] }

//verif:prop=C19 time=300 reach=badid,stopped,stored bounds="up to 1 (thorough 2) arbitrary stored peers, then one announce with arbitrary hash and peer id bytes of 0, 19, 20 or 21 bytes, arbitrary event text of 0, 7, 9 or 10 bytes, both flags, arbitrary IPv4, IPv6 or mapped address, port 4242, compact reply, number wanted absent or 1"
func VC19Store() {
	s := zzServe(nil)
	before := s.store(zzvnd.Bound(1, 2))
	lens := []int{20, 0, 19, 21}
	v := &announceParams{compact: true, port: "4242"}
	v.hash = zzvnd.Str("hash", lens[zzvnd.Choice("hashlen", 4)])
	v.peerid = zzvnd.Str("peer", lens[zzvnd.Choice("peerlen", 4)])
	v.event = zzvnd.Str("event", []int{0, 7, 9, 10}[zzvnd.Choice("eventlen", 4)])
	v.noneleft = zzvnd.Bool("noneleft")
	v.nopeerid = zzvnd.Bool("nopeerid")
	v.numwant = zzOf("numwant", "", "1")
	s.now = zzvnd.Range64("now", 0, 1<<36)
	zzAnnounce(s, v, zzAddr("a", 3), before)
}

//verif:prop=C19 time=300 reach=badport,badnumwant,stored,stopped bounds="one announce or stop, of the stored or another peer, with arbitrary port text of 0..5 (thorough 7) bytes or number-wanted text of 0..2 (thorough 3) bytes or a 19- or 20-digit one, over one stored peer of the same swarm"
func VC19Numbers() {
	s := zzServe(nil)
	var h storage.Hash
	zzvnd.Fill("hash", h[:])
	s.db.Save(netip.AddrFrom4([4]byte{1, 2, 3, 4}), 9, true, h, storage.PeerID{1})
	v := &announceParams{compact: zzvnd.Choice("compact", 2) == 1, hash: string(h[:]), peerid: "-XX0000-000000000000", port: "1", noneleft: true}
	v.event = zzOf("event", "", "stopped")
	if zzvnd.Choice("known", 2) == 1 {
		v.peerid = string(append([]byte{1}, make([]byte, 19)...))
	}
	switch zzvnd.Choice("vary", 3) {
	case 0:
		v.port = zzText("port", zzvnd.Bound(5, 7))
	case 1:
		v.numwant = zzText("numwant", zzvnd.Bound(2, 3))
	case 2:
		v.numwant = zzOf("big", "9223372036854775807", "9223372036854775808", "18446744073709551617", "-9223372036854775808")
	}
	zzAnnounce(s, v, netip.AddrFrom4([4]byte{127, 0, 0, 1}), gomap.ZZPeers(s.db))
}

//verif:prop=C19 time=200 reach=stored bounds="a swarm of up to 4 peers with the requester, some with IPv6 addresses, a default number of 0 to 3 and a maximum of 3, number wanted absent or 0 to 5, compact and list replies"
func VC19Numwant() {
	s := zzServe(nil)
	s.c.Numwant.Default = uint(zzvnd.Choice("default", 4))
	h := storage.Hash{7}
	n := zzvnd.Choice("others", 4)
	for i := 0; i < n; i++ {
		a := netip.AddrFrom4([4]byte{1, 2, 3, byte(i)})
		if i == 1 {
			a = netip.MustParseAddr("2001:db8::9")
		}
		s.db.Save(a, uint16(10+i), i == 0, h, storage.PeerID{byte(i + 1)})
	}
	v := &announceParams{compact: zzvnd.Choice("compact", 2) == 1, hash: string(h[:]), peerid: "-XX0000-000000000000", port: "4242"}
	v.numwant = zzOf("numwant", "", "0", "1", "2", "3", "4", "5")
	zzAnnounce(s, v, netip.AddrFrom4([4]byte{10, 1, 2, 3}), gomap.ZZPeers(s.db))
}

//verif:prop=C19 time=300 reach=stored,stopped bounds="one announce request through the served tracker with up to 1 stored peer: arbitrary hash bytes (plain characters), parameters in order or reversed; one of: port of 1..3 arbitrary characters, left of 1..2, event of 7 or 9 with or without a port, each flag as 1, another character, bare or absent, number wanted, 3 client addresses"
func VC19Request() {
	s := zzServe(nil)
	hash, peer := zzPlain("hash", 20), "-XX0000-000000000000"
	v := &announceParams{hash: string(hash), peerid: peer, port: "123"}
	remote := "10.1.2.3:5000"
	vary := zzvnd.Choice("vary", 6)
	before := []gomap.ZZPeer(nil)
	if vary < 5 {
		before = s.store(1)
	} else {
		var h storage.Hash
		copy(h[:], hash)
		s.db.Save(netip.MustParseAddr("2001:db8::9"), zzvnd.U16("speerport"), zzvnd.Bool("scomplete"), h, storage.PeerID{1})
		before = gomap.ZZPeers(s.db)
	}
	if vary == 0 {
		v.port = string(zzPlain("port", zzvnd.Choice("portlen", 3)+1))
	}
	params := []string{"info_hash=" + v.hash, "peer_id=" + peer, "port=" + v.port}
	if vary == 2 && zzvnd.Choice("noport", 2) == 1 {
		v.port, params = "", params[:2]
	}
	flag := func(name string, n int) bool {
		switch zzvnd.Choice(name, n) {
		case 1:
			params = append(params, name)
			return true
		case 2:
			params = append(params, name+"=1")
			return true
		case 3:
			x := string(zzPlain("flagval", 1))
			params = append(params, name+"="+x)
			return zzvnd.EqStr(x, "1")
		}
		return false
	}
	v.compact = vary < 5
	switch vary {
	case 1:
		left := string(zzPlain("leftval", zzvnd.Choice("leftlen", 2)+1))
		v.noneleft = zzvnd.EqStr(left, "0")
		params = append(params, "left="+left)
	case 2:
		v.event = string(zzPlain("eventval", 7+2*zzvnd.Choice("eventlen", 2)))
		params = append(params, "event="+v.event)
	case 3:
		if v.numwant = zzOf("numwant", "0", "1", "2", "x"); zzvnd.Choice("again", 2) == 1 {
			params = append(params, "numwant=7") // the last one counts
		}
		params = append(params, "numwant="+v.numwant)
	case 4:
		remote = zzOf("remote", "10.1.2.3:5000", "[2001:db8::7]:99", "[::1]:1")
	case 5:
		v.compact = flag("compact", 4)
		v.nopeerid = flag("no_peer_id", 3)
	}
	if vary < 5 {
		params = append(params, "compact=1")
	}
	if zzvnd.Choice("reverse", 2) == 1 && vary != 3 {
		for i, j := 0, len(params)-1; i < j; i, j = i+1, j-1 {
			params[i], params[j] = params[j], params[i]
		}
	}
	q := ""
	for i, p := range params {
		if i > 0 {
			q += "&"
		}
		q += p
	}
	c := zzConn([]byte("GET /announce?"+q+" HTTP/1.1\r\nHost: t\r\n\r\n"), remote)
	s.send(c)
	zzChecked(s, v, netip.MustParseAddrPort(remote).Addr(), before, c)
}
