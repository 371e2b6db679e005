package udp

import (
	"net"
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

type zzDatagram struct {
	data []byte
	from *net.UDPAddr
	err  error // the read fails
}

// zzSrv is a tracker serving a fake socket.
type zzSrv struct {
	c    *config.Configuration
	u    *UDPTracker
	db   *gomap.Memory
	sock *zzw.UDPConn
	in   chan zzDatagram
	now  int64
	done bool // Serve has returned
	err  error
}

// zzServe starts a tracker with an empty database; configure adjusts the
// configuration first.
func zzServe(configure func(c *config.Configuration)) *zzSrv {
	s := &zzSrv{c: zzh.Setup(), db: gomap.ZZNew(), sock: &zzw.UDPConn{}, in: make(chan zzDatagram), now: zzw.BaseTime}
	zzw.NowHook = func() time.Time { return time.Unix(s.now, 0) }
	if configure != nil {
		configure(s.c)
	}
	s.sock.Read = func(b []byte) (int, *net.UDPAddr, error) {
		d, ok := <-s.in
		if !ok {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		if d.err != nil {
			return 0, nil, d.err
		}
		return copy(b, d.data), d.from, nil
	}
	s.sock.CloseF = func() error {
		close(s.in)
		return nil
	}
	zzw.ListenUDPHook = func(string, *net.UDPAddr) (*zzw.UDPConn, error) { return s.sock, nil }
	s.u = new(UDPTracker)
	s.u.Init(s.db)
	go func() {
		s.err = s.u.Serve()
		s.done = true
	}()
	zzvnd.Settle()
	return s
}

// send delivers one datagram and returns the replies to it.
func (s *zzSrv) send(data []byte, from *net.UDPAddr) [][]byte {
	n := len(s.sock.Sent)
	s.in <- zzDatagram{data: data, from: from}
	zzvnd.Settle()
	var out [][]byte
	for _, d := range s.sock.Sent[n:] {
		zzvnd.Assert(d.To != nil && d.To.Port == from.Port && d.To.IP.Equal(from.IP), "a reply goes to the sender")
		out = append(out, d.Data)
	}
	return out
}

// one is send for a request that must get exactly one reply.
func (s *zzSrv) one(data []byte, from *net.UDPAddr) []byte {
	r := s.send(data, from)
	if len(r) != 1 {
		zzvnd.Fail("the request gets exactly one reply")
		zzvnd.Assume(false)
	}
	return r[0]
}

// zzRemote is an arbitrary source address: IPv4, IPv4 in a 16-byte slice, or IPv6.
func zzRemote(l string, kinds int) *net.UDPAddr {
	a := &net.UDPAddr{Port: int(zzvnd.U16(l + "port"))}
	switch zzvnd.Choice(l+"kind", kinds) {
	case 0:
		a.IP = zzvnd.Bytes(l+"ip", 4)
	case 1:
		a.IP = append(net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff}, zzvnd.Bytes(l+"ip", 4)...)
	case 2:
		a.IP = zzvnd.Bytes(l+"ip", 16)
		zzvnd.Assume(a.IP[0] != 0)
	}
	return a
}

// zzAddrOf is the address as it identifies the client.
func zzAddrOf(a *net.UDPAddr) netip.AddrPort {
	var ip netip.Addr
	switch {
	case len(a.IP) == 4:
		ip = netip.AddrFrom4([4]byte{a.IP[0], a.IP[1], a.IP[2], a.IP[3]})
	case a.IP[0] == 0:
		ip = netip.AddrFrom4([4]byte{a.IP[12], a.IP[13], a.IP[14], a.IP[15]})
	default:
		var b [16]byte
		copy(b[:], a.IP)
		ip = netip.AddrFrom16(b)
	}
	return netip.AddrPortFrom(ip, uint16(a.Port))
}

func zzBE(v uint64, n int) (b []byte) {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return
}

func zzGet(b []byte, off, n int) (v uint64) {
	for _, c := range b[off : off+n] {
		v = v<<8 | uint64(c)
	}
	return
}

// zzReq is the common 16-byte request header.
func zzReq(id uint64, action, tx uint32) []byte {
	return append(append(zzBE(id, 8), zzBE(uint64(action), 4)...), zzBE(uint64(tx), 4)...)
}

// zzAnn is an announce request.
type zzAnn struct {
	id         uint64
	tx         uint32
	hash, peer []byte
	left       uint64
	event      uint32
	numwant    uint32
	port       uint16
}

func (a *zzAnn) bytes() []byte {
	b := zzReq(a.id, 1, a.tx)
	b = append(b, a.hash...)
	b = append(b, a.peer...)
	b = append(b, zzBE(0x1122334455667788, 8)...) // downloaded
	b = append(b, zzBE(a.left, 8)...)
	b = append(b, zzBE(0x99aabbccddeeff00, 8)...) // uploaded
	b = append(b, zzBE(uint64(a.event), 4)...)
	b = append(b, zzBE(0x0a0b0c0d, 4)...) // ip
	b = append(b, zzBE(0xdeadbeef, 4)...) // key
	b = append(b, zzBE(uint64(a.numwant), 4)...)
	return append(b, zzBE(uint64(a.port), 2)...)
}

// connect obtains a connection id.
func (s *zzSrv) connect(from *net.UDPAddr) uint64 {
	tx := zzvnd.U32("connecttx")
	r := s.one(zzReq(0x41727101980, 0, tx), from)
	zzvnd.Assert(len(r) == 16, "a connect reply has 16 bytes")
	zzvnd.Assert(zzvnd.And(zzGet(r, 0, 4) == 0, zzGet(r, 4, 4) == uint64(tx)), "a connect reply carries the action and transaction id")
	return zzGet(r, 8, 8)
}

// zzIsError checks an error reply.
func zzIsError(r []byte, tx uint32) bool {
	return len(r) >= 8 && zzvnd.And(zzGet(r, 0, 4) == 3, zzGet(r, 4, 4) == uint64(tx))
}

// zzSamePeers compares two listings without regard to order.
func zzSamePeers(a, b []gomap.ZZPeer) bool {
	return len(a) == len(b) && zzh.Injects(len(a), len(b), func(i, j int) bool { return a[i] == b[j] })
}

func zzAP(l string, kinds int) netip.AddrPort {
	var ip netip.Addr
	switch zzvnd.Choice(l+"kind", kinds) {
	case 0:
		var b [4]byte
		zzvnd.Fill(l+"ip", b[:])
		ip = netip.AddrFrom4(b)
	case 1:
		var b [16]byte
		zzvnd.Fill(l+"ip", b[:])
		ip = netip.AddrFrom16(b)
	case 2:
		b := [16]byte{10: 0xff, 11: 0xff}
		zzvnd.Fill(l+"ip", b[12:])
		ip = netip.AddrFrom16(b)
	}
	return netip.AddrPortFrom(ip, zzvnd.U16(l+"port"))
}

// zzStore puts up to max arbitrary peers into the database and lists them.
func zzStore(s *zzSrv, max int) []gomap.ZZPeer {
	n := zzvnd.Choice("stored", max+1)
	for i := 0; i < n; i++ {
		var h storage.Hash
		var id storage.PeerID
		zzvnd.Fill("shash", h[:])
		zzvnd.Fill("sid", id[:])
		s.db.Save(zzAP("s", 2).Addr(), zzvnd.U16("speerport"), zzvnd.Bool("scomplete"), h, id)
	}
	return gomap.ZZPeers(s.db)
}

func zzCounts(l []gomap.ZZPeer, h storage.Hash) (c, i int) {
	for _, p := range l {
		if p.Hash == h {
			c += zzvnd.B2I(p.Complete)
			i += zzvnd.B2I(!p.Complete)
		}
	}
	return
}
