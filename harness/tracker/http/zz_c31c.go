package http

import (
	"net/netip"

	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C31 time=200 conc=100000 reach=done bounds="two announces handled at once (well formed, a stop or refused; of the same or different peers), every interleaving at lock and atomic operations with up to 3 (thorough 5) preemptions"
func VC31AnnounceConcurrent() {
	zzvnd.Flag("atomics", 1)
	zzvnd.Flag("preempt", zzvnd.Bound(3, 5))
	s := zzServe(nil)
	bad := 0
	run := func(id string) func() {
		v := &announceParams{compact: true, port: "80", hash: "aaaaaaaaaaaaaaaaaaaa", peerid: "-XX0000-00000000000" + id}
		switch zzvnd.Choice("kind", 3) {
		case 1:
			v.event = "stopped"
		case 2:
			v.port = "x"
			bad++
		}
		return func() { s.t.announce(&zzw.Conn{}, v, netip.AddrFrom4([4]byte{1, 2, 3, 4})) }
	}
	a, e := stats.Announces.Load(), stats.ClientErrors.Load()
	zzvnd.Par(run("1"), run([]string{"1", "2"}[zzvnd.Choice("other", 2)]))
	zzvnd.Assert(stats.Announces.Load()-a == 2, "an announce is counted once")
	zzvnd.Assert(stats.ClientErrors.Load()-e == int64(bad), "a refused request is counted once as an error")
	zzvnd.Reach("done")
}
