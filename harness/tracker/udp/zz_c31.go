package udp

import (
	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C31 time=200 reach=connect,announce,scrape,error,short bounds="two datagrams in a row, each of 15, 16, 35, 36, 97 or 98 arbitrary bytes, from an arbitrary source, validation on or off, one issued id"
func VC31UDP() {
	s := zzServe(func(c *config.Configuration) { c.UDP.ConnDB.Validate = zzvnd.Bool("validate") })
	from := zzRemote("r", 2)
	id := s.connect(from)
	for i := 0; i < 2; i++ {
		d := zzvnd.Bytes("d", []int{15, 16, 35, 36, 97, 98}[zzvnd.Choice("len", 6)])
		if len(d) > 16 && zzvnd.Bool("issued") {
			copy(d, zzBE(id, 8))
		}
		h, c, a, sc, bad := stats.Hits.Load(), stats.Connects.Load(), stats.Announces.Load(), stats.Scrapes.Load(), stats.ClientErrors.Load()
		rs := s.send(d, from)
		h, c, a, sc, bad = stats.Hits.Load()-h, stats.Connects.Load()-c, stats.Announces.Load()-a, stats.Scrapes.Load()-sc, stats.ClientErrors.Load()-bad
		if len(d) < 16 {
			zzvnd.Assert(h == 0 && c == 0 && a == 0 && sc == 0 && bad == 0, "what is no request is not counted")
			zzvnd.Reach("short")
			continue
		}
		zzvnd.Assert(h == 1, "a request is counted once")
		zzvnd.Assert(c >= 0 && a >= 0 && sc >= 0 && c+a+sc <= 1, "a request is counted as one kind at most")
		action := zzGet(d, 8, 4)
		zzvnd.Assert(zzvnd.And(zzvnd.Or(c == 0, action == 0), zzvnd.And(zzvnd.Or(a == 0, action == 1), zzvnd.Or(sc == 0, action == 2))), "a request is counted as what it is")
		if len(rs) == 0 || len(rs[0]) < 8 {
			continue
		}
		switch zzGet(rs[0], 0, 4) {
		case 0:
			zzvnd.Assert(c == 1 && bad == 0, "an answered connect is counted once")
			zzvnd.Reach("connect")
		case 1:
			zzvnd.Assert(a == 1 && bad == 0, "an answered announce is counted once")
			zzvnd.Reach("announce")
		case 2:
			zzvnd.Assert(sc == 1 && bad == 0, "an answered scrape is counted once")
			zzvnd.Reach("scrape")
		case 3:
			zzvnd.Assert(bad == 1, "a refused request is counted once as an error")
			zzvnd.Reach("error")
		}
	}
}
