package udp

import (
	"net/netip"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzReply checks what C14 says about the replies to one datagram.
func zzReply(s *zzSrv, d []byte, rs [][]byte) {
	zzvnd.Assert(len(rs) <= 1, "a datagram gets at most one reply")
	zzvnd.Assert(!s.done, "the server stays up")
	if len(d) < 16 {
		zzvnd.Assert(len(rs) == 0, "a datagram shorter than a connect request gets no reply")
		zzvnd.Reach("short")
		return
	}
	action, tx := zzGet(d, 8, 4), zzGet(d, 12, 4)
	if action > 4 {
		zzvnd.Assert(len(rs) == 1, "a datagram with an unknown action gets an error")
	}
	if len(rs) == 0 {
		return
	}
	r := rs[0]
	if action == 4 {
		zzvnd.Assert(len(r) == 1 && r[0] == 0xff, "a heartbeat gets its fixed reply")
		zzvnd.Reach("heartbeat")
		return
	}
	zzvnd.Assert(len(r) >= 8, "a reply has an action and a transaction id")
	if len(r) < 8 {
		return
	}
	zzvnd.Assert(zzGet(r, 4, 4) == tx, "a reply carries the transaction id of the request")
	if action > 4 {
		zzvnd.Assert(zzGet(r, 0, 4) == 3, "a datagram with an unknown action gets an error")
		zzvnd.Reach("unknown")
		return
	}
	zzvnd.Assert(zzvnd.Or(zzGet(r, 0, 4) == action, zzGet(r, 0, 4) == 3), "a reply carries the action of the request or the error action")
	if zzGet(r, 0, 4) == 3 {
		zzvnd.Reach("error")
	} else {
		zzvnd.Reach("answered")
	}
}

//verif:prop=C14 time=300 reach=short,heartbeat,unknown,error,answered bounds="one datagram of arbitrary bytes and of 0, 1, 15 to 17, 35, 36, 56, 97 to 100 bytes (thorough: every length up to 110) from an arbitrary source, validation on or off, log level error or debug, one stored peer and one issued id"
func VC14Datagram() {
	s := zzServe(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate = zzvnd.Bool("validate")
		if zzvnd.Bool("debug") {
			c.LogLevel = "debug"
		}
	})
	s.db.Save(netip.AddrFrom4([4]byte{192, 0, 2, 1}), 7, true, storage.Hash{1}, storage.PeerID{9})
	zzw.RandHook = func(n uint64) uint64 { return 12345 }
	from := zzRemote("r", 3)
	if s.c.UDP.ConnDB.Validate {
		s.connect(from)
	}
	lens := []int{0, 1, 15, 16, 17, 35, 36, 56, 97, 98, 99, 100}
	n := 0
	if zzvnd.Deep() {
		n = zzvnd.Choice("len", 111)
	} else {
		n = lens[zzvnd.Choice("len", len(lens))]
	}
	d := zzvnd.Bytes("data", n)
	zzReply(s, d, s.send(d, from))
	// and it still answers
	tx := zzvnd.U32("after")
	r := s.one(zzReq(0x41727101980, 0, tx), from)
	zzvnd.Assert(len(r) == 16 && zzGet(r, 4, 4) == uint64(tx), "the server stays up")
}

//verif:prop=C14 time=300 reach=short,heartbeat,unknown,error,answered bounds="two (thorough 3) datagrams of arbitrary bytes of 15, 16, 36 or 98 bytes in a row through the recycled buffer, validation off; the reply to each must match that datagram"
func VC14Sequence() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	from := zzRemote("r", 1)
	n := zzvnd.Bound(2, 3)
	for i := 0; i < n; i++ {
		d := zzvnd.Bytes("data", []int{15, 16, 36, 98}[zzvnd.Choice("len", 4)])
		zzReply(s, d, s.send(d, from))
	}
	for _, p := range gomap.ZZPeers(s.db) {
		zzvnd.Assert(p.Port != 0, "port zero is never stored")
	}
}
