package udp

import (
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C25 time=120 reach=fuzz,plain bounds="every base up to 2^30 s and fuzz up to 2^30 s in whole seconds (or a fuzz of 500 ms), every random draw, every event but stopped"
func VC25UDP() {
	var base, fuzz int64
	zzw.RandHook = func(n uint64) uint64 {
		v := zzvnd.U64("draw")
		zzvnd.Assume(n == 0 || v < n)
		return v
	}
	s := zzServe(func(c *config.Configuration) {
		c.UDP.ConnDB.Validate = false
		base = zzvnd.Range64("base", 0, 1<<30)
		c.Announce.Base = time.Duration(base) * time.Second
		if zzvnd.Bool("half") {
			c.Announce.Fuzz = 500 * time.Millisecond
		} else {
			fuzz = zzvnd.Range64("fuzz", 0, 1<<30-1)
			c.Announce.Fuzz = time.Duration(fuzz) * time.Second
		}
	})
	a := zzAnn{tx: 1, hash: make([]byte, 20), peer: make([]byte, 20), left: zzvnd.U64("left"), event: uint32(zzvnd.Choice("event", 3)), numwant: 1, port: 1}
	r := s.one(a.bytes(), zzRemote("r", 1))
	iv := int64(int32(zzGet(r, 8, 4)))
	zzvnd.Assert(zzvnd.And(iv >= base, iv <= base+fuzz), "the interval lies between the base and the base plus the fuzz")
	if fuzz > 0 {
		zzvnd.Reach("fuzz")
	} else {
		zzvnd.Reach("plain")
	}
}
