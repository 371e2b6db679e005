package udp

import (
	"net"
	"time"

	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzTraffic has a tracker with two threads handle the datagrams at the same
// time, the k-th coming from port k+1, and returns the replies by sender.
func zzTraffic(reqs [][]byte) (replies [][][]byte, db *gomap.Memory) {
	c := zzh.Setup()
	zzw.NowHook = func() time.Time { return time.Unix(zzw.BaseTime, 0) }
	c.UDP.ConnDB.Validate = false
	c.UDP.Threads = 2
	db = gomap.ZZNew()
	in, out := make(chan zzDatagram, len(reqs)), make(chan zzw.Datagram, 2*len(reqs))
	for i, d := range reqs {
		in <- zzDatagram{data: d, from: &net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: i + 1}}
	}
	sock := &zzw.UDPConn{}
	sock.Read = func(b []byte) (int, *net.UDPAddr, error) {
		d, ok := <-in
		if !ok {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		return copy(b, d.data), d.from, nil
	}
	sock.CloseF = func() error {
		close(in)
		return nil
	}
	sock.SendF = func(b []byte, to *net.UDPAddr) {
		out <- zzw.Datagram{Data: append([]byte{}, b...), To: to}
	}
	zzw.ListenUDPHook = func(string, *net.UDPAddr) (*zzw.UDPConn, error) { return sock, nil }
	u := new(UDPTracker)
	u.Init(db)
	var got []zzw.Datagram
	zzvnd.Par(func() { u.Serve() }, func() {
		for range reqs {
			got = append(got, <-out)
		}
		u.Shutdown()
	})
	zzvnd.Settle()
	for len(out) > 0 {
		got = append(got, <-out)
	}
	replies = make([][][]byte, len(reqs))
	for _, d := range got {
		zzvnd.Assert(d.To != nil && d.To.Port >= 1 && d.To.Port <= len(reqs), "a reply goes to a sender")
		replies[d.To.Port-1] = append(replies[d.To.Port-1], d.Data)
	}
	return
}


// zzPair is two requests of the given kinds (connect, announce, scrape, too
// short an announce, unknown action) whose contents tell them apart.
func zzPair(kinds [2]int) (reqs [][]byte) {
	for i, k := range kinds {
		r := zzReq(0x41727101980, uint32([]int{0, 1, 2, 1, 9}[k]), uint32(i+70))
		switch k {
		case 1:
			r = append(r, make([]byte, 82)...)
			r[16], r[36], r[97] = byte(i+1), byte(i+1), byte(80+i)
		case 2:
			r = append(r, make([]byte, 20)...)
			r[16] = byte(i + 1)
		case 3:
			r = append(r, make([]byte, 20)...)
		}
		reqs = append(reqs, r)
	}
	return
}

// zzPairReplies checks that each of the two senders got the reply to its request.
func zzPairReplies(kinds [2]int, replies [][][]byte, db *gomap.Memory) {
	n := 0
	for i, k := range kinds {
		rs := replies[i]
		if len(rs) != 1 || len(rs[0]) < 8 {
			zzvnd.Fail("each datagram gets exactly one reply")
			zzvnd.Assume(false)
		}
		r := rs[0]
		zzvnd.Assert(zzGet(r, 4, 4) == uint64(i+70), "a reply carries the transaction id of its own request")
		zzvnd.Assert(zzGet(r, 0, 4) == uint64([]int{0, 1, 2, 3, 3}[k]), "a reply carries the action of its own request or the error action")
		switch k {
		case 0:
			zzvnd.Assert(len(r) == 16, "a connect gets an id")
		case 1:
			n++
			zzvnd.Assert(len(r) == 26 && string(r[20:]) == string([]byte{10, 0, 0, 1, 0, byte(80 + i)}), "an announce gets its own swarm's peers")
		case 2:
			zzvnd.Assert(len(r) == 20, "a scrape gets one entry")
		}
	}
	ps := gomap.ZZPeers(db)
	zzvnd.Assert(len(ps) == n, "exactly the announced peers are stored")
	for _, p := range ps {
		i := int(p.Hash[0]) - 1
		zzvnd.Assert(i >= 0 && i < 2 && kinds[i] == 1 && p.ID[0] == p.Hash[0] && p.Port == uint16(80+i), "each peer is stored as announced")
	}
}
