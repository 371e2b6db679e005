package udp

import (
	"net"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C31 time=200 conc=100000 reach=done bounds="two requests of the same kind (connect, announce or scrape of arbitrary hashes) handled at once, every interleaving at lock and atomic operations with up to 3 (thorough 5) preemptions"
func VC31Concurrent() {
	zzvnd.Flag("atomics", 1)
	zzvnd.Flag("preempt", zzvnd.Bound(3, 5))
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = false })
	s.sock.SendF = func([]byte, *net.UDPAddr) {}
	kind := zzvnd.Choice("kind", 3)
	reqs := make([][]byte, 2)
	for i := range reqs {
		reqs[i] = zzReq(0x41727101980, uint32(kind), uint32(i))
		switch kind {
		case 1:
			reqs[i] = append(reqs[i], make([]byte, 82)...)
			reqs[i][16] = byte(i)
			reqs[i][97] = 80
		case 2:
			reqs[i] = append(reqs[i], zzvnd.Bytes("hash", 20)...)
		}
	}
	h, c, a, sc := stats.Hits.Load(), stats.Connects.Load(), stats.Announces.Load(), stats.Scrapes.Load()
	run := func(d []byte, port int) func() {
		return func() {
			s.u.process(d, &net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: port})
		}
	}
	zzvnd.Par(run(reqs[0], 1), run(reqs[1], 2))
	zzvnd.Assert(stats.Hits.Load()-h == 2, "a request is counted once")
	got := []int64{stats.Connects.Load() - c, stats.Announces.Load() - a, stats.Scrapes.Load() - sc}
	for k, n := range got {
		zzvnd.Assert(n == 2 && k == kind || n == 0 && k != kind, "a request is counted once as what it is")
	}
	zzvnd.Reach("done")
}
