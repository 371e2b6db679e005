package udp

import (
	"net/netip"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C08 time=120 reach=died,failed,saved bounds="every crash point and every single or permanent operation failure within the first 16 points of a save; previous file absent or 5 arbitrary bytes; one arbitrary connection id; write failures after 0, 3 or all bytes; gob is modelled as a lossless codec"
func VC08Conns() {
	zzh.Setup()
	u := &UDPTracker{conndb: newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)}
	a := netip.AddrPortFrom(netip.AddrFrom4([4]byte{192, 0, 2, zzvnd.U8("ip")}), zzvnd.U16("port"))
	id := zzvnd.I64("id")
	u.conndb.add(id, a)
	p := zzh.NewFSPlan(16)
	path := config.CachePath + "conn.db"
	old := zzvnd.Bytes("old", 5)
	had := zzvnd.Bool("had")
	if had {
		p.FS.Set(path, old)
	}
	isNew := func() bool {
		db := newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)
		return db.loadFromFile(path) == nil && db.size() == 1 && db.check(id, a)
	}
	err, died := p.Run(u.WriteConns)
	got, ok := p.FS.Get(path)
	isOld := ok == had && (!ok || zzvnd.EqBytes(got, old))
	if died {
		zzvnd.Assert(isOld || isNew(), "the connection file holds the complete old or the complete new contents")
		zzvnd.Reach("died")
	} else if err == nil {
		zzvnd.Assert(isNew(), "a save reported as successful has saved")
		zzvnd.Reach("saved")
	} else {
		zzvnd.Assert(isOld || isNew(), "the connection file holds the complete old or the complete new contents")
		zzvnd.Assert(p.Hit, "a save fails only when a file operation failed")
		zzvnd.Reach("failed")
	}
	// whatever happened, the next save succeeds
	if died { // a new process
		u = &UDPTracker{conndb: newConnectionDatabase(config.Config.UDP.ConnDB.Expiry)}
		u.conndb.add(id, a)
	}
	zzvnd.Assert(u.WriteConns() == nil, "a later save succeeds")
	zzvnd.Assert(isNew(), "a later save saves")
}
