package http

import (
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C25 time=300 reach=fuzz,nofuzz bounds="HTTP: base of 0 to 2^31-2 whole seconds and fuzz of 0 to 2^31-1-base whole seconds, every random draw, compact and list replies"
func VC25HTTP() {
	base := int64(zzvnd.Range64("base", 0, 1<<31-2))
	fuzz := int64(zzvnd.Range64("fuzz", 0, 1<<31-1))
	zzvnd.Assume(base+fuzz < 1<<31)
	s := zzServe(func(c *config.Configuration) {
		c.Announce.Base = time.Duration(base) * time.Second
		c.Announce.Fuzz = time.Duration(fuzz) * time.Second
	})
	drawn := false
	zzw.RandHook = func(n uint64) uint64 {
		zzvnd.Assert(n > 0, "a draw is from a non-empty range")
		drawn = true
		x := zzvnd.U64("draw")
		zzvnd.Assume(x < n)
		return x
	}
	c := &zzw.Conn{}
	v := &announceParams{compact: zzvnd.Choice("compact", 2) == 1, port: "80", hash: "aaaaaaaaaaaaaaaaaaaa", peerid: "aaaaaaaaaaaaaaaaaaaa", numwant: "0"}
	s.t.announce(c, v, netip.AddrFrom4([4]byte{1, 2, 3, 4}))
	i := zzReply(c.Out).get("interval")
	zzvnd.Assert(i != nil && i.kind == 'i', "a reply has an interval")
	if i != nil {
		zzvnd.Assert(zzvnd.And(i.i >= base, i.i <= base+fuzz), "the interval is within the configured range")
	}
	if drawn {
		zzvnd.Reach("fuzz")
	} else {
		zzvnd.Reach("nofuzz")
	}
}
