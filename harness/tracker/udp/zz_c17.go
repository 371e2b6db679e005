package udp

import (
	"net/netip"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzvnd"
)

// zzScrapeReply checks one scrape response.
func zzScrapeReply(r []byte, tx uint32, l []gomap.ZZPeer, hashes []byte) {
	n := len(hashes) / 20
	zzvnd.Assert(len(r) == 8+12*n, "a scrape response has one 12-byte entry per hash and no extra bytes")
	if len(r) != 8+12*n {
		return
	}
	zzvnd.Assert(zzvnd.And(zzGet(r, 0, 4) == 2, zzGet(r, 4, 4) == uint64(tx)), "a scrape response carries the action and transaction id")
	for k := 0; k < n; k++ {
		var h storage.Hash
		copy(h[:], hashes[20*k:])
		c, i := zzCounts(l, h)
		zzvnd.Assert(int(zzGet(r, 8+12*k, 4)) == c, "an entry starts with the seeders of its hash")
		zzvnd.Assert(int(zzGet(r, 8+12*k+8, 4)) == i, "an entry ends with the leechers of its hash")
	}
}

//verif:prop=C17 time=200 reach=done bounds="up to 2 (thorough 3) arbitrary stored peers; one scrape of 1 to 3 arbitrary (possibly equal) hashes and up to 19 trailing bytes"
func VC17Scrape() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	l := zzStore(s, zzvnd.Bound(2, 3))
	n := 1 + zzvnd.Choice("hashes", 3)
	tx := zzvnd.U32("tx")
	hs := zzvnd.Bytes("hash", 20*n)
	req := append(zzReq(zzvnd.U64("id"), 2, tx), hs...)
	req = append(req, zzvnd.Bytes("tail", []int{0, 1, 19}[zzvnd.Choice("tail length", 3)])...)
	r := s.one(req, zzRemote("r", 1))
	zzScrapeReply(r, tx, l, hs)
	zzvnd.Assert(zzSamePeers(l, gomap.ZZPeers(s.db)) && s.db.Hashes() == len(zzHashes(l)), "a scrape changes nothing")
	zzvnd.Reach("done")
}

func zzHashes(l []gomap.ZZPeer) map[storage.Hash]bool {
	m := map[storage.Hash]bool{}
	for _, p := range l {
		m[p.Hash] = true
	}
	return m
}

//verif:prop=C17 time=200 reach=done bounds="one scrape of 5 or 74 hashes (thorough: every number up to 74), one of them, at an arbitrary position, stored with 1 or 2 peers of arbitrary completeness; the datagram buffer was used by a longer datagram before"
func VC17Many() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	var h storage.Hash
	zzvnd.Fill("hash", h[:])
	zzvnd.Assume(h[0] != 0xee)
	for i := zzvnd.Choice("peers", 2); i >= 0; i-- {
		s.db.Save(netip.AddrFrom4([4]byte{192, 0, 2, byte(i)}), 7, zzvnd.Bool("complete"), h, storage.PeerID{byte(i)})
	}
	l := gomap.ZZPeers(s.db)
	s.send(make([]byte, 1496), zzRemote("q", 1))
	ns := []int{5, 74}
	n := 0
	if zzvnd.Deep() {
		n = 1 + zzvnd.Choice("hashes", 74)
	} else {
		n = ns[zzvnd.Choice("hashes", len(ns))]
	}
	at := zzvnd.Int("at", 0, n-1)
	hs := make([]byte, 20*n)
	for i := 0; i < n; i++ {
		hs[20*i], hs[20*i+1] = 0xee, byte(i)
	}
	at = zzvnd.Concrete(at)
	copy(hs[20*at:], h[:])
	tx := zzvnd.U32("tx")
	r := s.one(append(zzReq(0, 2, tx), hs...), zzRemote("r", 1))
	zzScrapeReply(r, tx, l, hs)
	zzvnd.Reach("done")
}
