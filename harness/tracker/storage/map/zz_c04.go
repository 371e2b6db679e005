package gomap

import (
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C04 time=200 reach=done bounds="up to 4 peers over arbitrary hashes (all aliasings), last announces and passes at arbitrary times in [0,2^36] s, some stopped again; maximum ages of 0, 1, 1.5, 600 and 10^9 s; any map order; two consecutive passes and a later one"
func VC04Pass() {
	zzvnd.Flag("maporder", 1)
	zzh.Setup()
	now := zzClock()
	age := []time.Duration{0, time.Second, 1500 * time.Millisecond, 600 * time.Second, 1e9 * time.Second}[zzvnd.Choice("age", 5)]
	config.Config.DB.Expiry = age
	max := int64(age / time.Second)
	var db Memory
	db.make()
	var r zzRef
	n := zzvnd.Choice("peers", zzvnd.Bound(4, 5))
	for i := 0; i < n; i++ {
		h, id := zzHash("hash"), storage.PeerID{byte(i)}
		*now = zzvnd.Range64("seen", 0, 1<<36)
		ip, complete := netip.AddrFrom4([4]byte{1, 2, 3, byte(i)}), i%2 == 0
		db.Save(ip, uint16(i), complete, h, id)
		r.save(ip, uint16(i), complete, h, id, *now)
	}
	if n > 0 && zzvnd.Choice("stop", 2) == 1 {
		db.Drop(r.ents[0].h, r.ents[0].id)
		r.drop(r.ents[0].h, r.ents[0].id)
	}
	check := func() {
		zzCheckPeers(&db, &r)
		zzvnd.Assert(db.Hashes() == len(r.hashes()), "exactly the info-hashes with peers remain")
	}
	*now = zzvnd.Range64("pass", 0, 1<<36)
	r.trim(*now, max)
	db.Trim()
	check()
	db.Trim()
	check()
	if zzvnd.Deep() {
		*now = zzvnd.Range64("pass", 0, 1<<36)
		r.trim(*now, max)
		db.Trim()
		check()
	}
	zzvnd.Reach("done")
}
