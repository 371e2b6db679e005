package udp

import (
	"net"
	"os"
	"syscall"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C14 time=300 conc=100000 reach=done bounds="two datagrams (each a connect, announce, scrape, short announce or unknown action) handled by two threads at once, every interleaving at lock and channel operations with up to 1 (thorough 2) preemptions"
func VC14Threads() {
	zzvnd.Flag("pools", 1)
	zzvnd.Flag("preempt", zzvnd.Bound(1, 2))
	kinds := [2]int{zzvnd.Choice("a", 5), zzvnd.Choice("b", 5)}
	rs, db := zzTraffic(zzPair(kinds))
	zzPairReplies(kinds, rs, db)
	zzvnd.Reach("done")
}

//verif:prop=C14 time=300 reach=done bounds="three events in a row, each a datagram (connect, announce, scrape, unknown action or one of 3 bytes) or a failed read (no buffer space, refused, timed out), then a connect; then the tracker is shut down; 1 or 2 threads"
func VC14Faults() {
	s := zzServe(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate = false
		c.UDP.Threads = zzvnd.Choice("threads", 2) + 1
	})
	from := &net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: 1}
	for i := 0; i < 3; i++ {
		switch k := zzvnd.Choice("event", 8); k {
		case 0, 1, 2, 3:
			kinds := [2]int{[]int{0, 1, 2, 4}[k], 0}
			r := s.one(zzPair(kinds)[0], from)
			zzvnd.Assert(len(r) >= 8 && zzGet(r, 4, 4) == 70, "a request is answered whatever happened before")
		case 4:
			zzvnd.Assert(len(s.send([]byte{1, 2, 3}, from)) == 0, "a short datagram gets no reply")
		default:
			err := []error{os.NewSyscallError("recvfrom", syscall.ENOBUFS), os.NewSyscallError("recvfrom", syscall.ECONNREFUSED), os.ErrDeadlineExceeded}[k-5]
			s.in <- zzDatagram{err: &net.OpError{Op: "read", Net: "udp", Err: err}}
			zzvnd.Settle()
			zzvnd.Assert(!s.done, "the server stays up")
		}
	}
	r := s.one(zzReq(0x41727101980, 0, 5), from)
	zzvnd.Assert(len(r) == 16 && zzGet(r, 4, 4) == 5, "a request is answered whatever happened before")
	go s.u.Shutdown()
	zzvnd.Settle()
	zzvnd.Assert(s.done && s.err == nil && s.sock.Closed == 1, "a shutdown closes the socket and ends serving")
	zzvnd.Reach("done")
}
