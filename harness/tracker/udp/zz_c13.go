package udp

import (
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

type zzEntry struct {
	a      netip.AddrPort
	id, ts int64
	on     bool
}

// zzConnDB fills a connection database with up to max arbitrary entries.
func zzConnDB(db *connectionDatabase, max, kinds int, now *int64) (ref []*zzEntry) {
	n := zzvnd.Choice("entries", max+1)
	for i := 0; i < n; i++ {
		*now = zzvnd.Range64("time", 0, 1<<36)
		a, id := zzAP("e", kinds), zzvnd.I64("id")
		db.add(id, a)
		ref = zzIssue(ref, a, id, *now)
	}
	return
}

// zzIssue replaces or adds the entry of an address.
func zzIssue(ref []*zzEntry, a netip.AddrPort, id, ts int64) []*zzEntry {
	for _, e := range ref {
		if e.on && e.a == a {
			e.id, e.ts = id, ts
			return ref
		}
	}
	return append(ref, &zzEntry{a, id, ts, true})
}

func zzConnCheck(db *connectionDatabase, ref []*zzEntry) {
	n := 0
	for _, e := range ref {
		got, ok := db.connectionMap[e.a]
		if !e.on {
			zzvnd.Assert(!ok, "an expired id is gone")
			zzvnd.Assert(!db.check(e.id, e.a), "an expired id is no longer accepted")
			continue
		}
		n++
		zzvnd.Assert(ok, "an unexpired id is kept")
		if ok {
			zzvnd.Assert(zzvnd.And(got.ID == e.id, got.TimeStamp == e.ts), "an id and its time are kept")
		}
		zzvnd.Assert(db.check(e.id, e.a), "an unexpired id is accepted")
		other := zzvnd.I64("other")
		zzvnd.Assert(db.check(other, e.a) == (other == e.id), "only the issued id is accepted")
	}
	zzvnd.Assert(db.size() == n, "the number of connections is the number of ids")
}

func zzNow() *int64 {
	t := new(int64)
	*t = zzw.BaseTime
	zzw.NowHook = func() time.Time { return time.Unix(*t, 0) }
	return t
}

//verif:prop=C13 time=120 reach=done bounds="up to 2 (thorough 3) ids issued at arbitrary times to arbitrary (possibly equal) IPv4 or IPv6 sources, trimmed twice at arbitrary times with an arbitrary whole-second expiry below 2^30 s"
func VC13Trim() {
	zzh.Setup()
	now := zzNow()
	exp := zzvnd.Range64("expiry", 0, 1<<30)
	db := newConnectionDatabase(time.Duration(exp) * time.Second)
	ref := zzConnDB(db, zzvnd.Bound(2, 3), 2, now)
	for i := 0; i < 2; i++ {
		*now = zzvnd.Range64("trim", 0, 1<<36)
		db.trim()
		for _, e := range ref {
			if *now-e.ts > exp {
				e.on = false
			}
		}
		zzConnCheck(db, ref)
	}
	zzvnd.Reach("done")
}

//verif:prop=C13 time=120 reach=done bounds="round trip through the binary and the gob format of up to 2 (thorough 3) arbitrary entries (IPv4, IPv6, IPv4-mapped); gob is modelled as a lossless codec"
func VC13Codec() {
	c := zzh.Setup()
	now := zzNow()
	db := newConnectionDatabase(c.UDP.ConnDB.Expiry)
	ref := zzConnDB(db, zzvnd.Bound(2, 3), 3, now)
	back := newConnectionDatabase(c.UDP.ConnDB.Expiry)
	back.add(1, netip.AddrPortFrom(netip.AddrFrom4([4]byte{9, 9, 9, 9}), 9)) // replaced by decoding
	if zzvnd.Bool("gob") {
		b, err := db.gobEncode()
		zzvnd.Assert(err == nil, "encoding succeeds")
		zzvnd.Assert(back.gobDecode(b) == nil, "decoding succeeds")
	} else {
		b, err := db.marshallBinary()
		zzvnd.Assert(err == nil, "encoding succeeds")
		zzvnd.Assert(back.unmarshallBinary(b) == nil, "decoding succeeds")
	}
	zzConnCheck(back, ref)
	zzConnCheck(db, ref)
	zzvnd.Reach("done")
}

//verif:prop=C13 time=200 reach=ok,error alloc=50331648 bounds="every byte string of 0 to 5, 10, 22, 23, 26, 27, 38, 39, 50, 61 bytes (thorough: every length up to 80) decoded in the binary format"
func VC13Damaged() {
	c := zzh.Setup()
	lens := []int{0, 1, 2, 3, 4, 5, 10, 22, 23, 26, 27, 38, 39, 50, 61}
	n := 0
	if zzvnd.Deep() {
		n = zzvnd.Choice("len", 81)
	} else {
		n = lens[zzvnd.Choice("len", len(lens))]
	}
	db := newConnectionDatabase(c.UDP.ConnDB.Expiry)
	if db.unmarshallBinary(zzvnd.Bytes("data", n)) != nil {
		zzvnd.Reach("error")
		return
	}
	for a := range db.connectionMap {
		zzvnd.Assert(a.Addr().IsValid(), "a decoded entry has an address")
	}
	zzvnd.Reach("ok")
}

//verif:prop=C13 time=120 reach=restored,fresh bounds="up to 2 ids, saved and reloaded by a new tracker process; or the saved file missing, cut at any byte, or 12 arbitrary bytes"
func VC13Restart() {
	c := zzh.Setup()
	now := zzNow()
	zzw.FS = zzw.NewFS()
	a := new(UDPTracker)
	a.Init(nil)
	ref := zzConnDB(a.conndb, 2, 2, now)
	zzvnd.Assert(a.Connections() == len(ref), "the number of connections is the number of ids")
	zzvnd.Assert(a.WriteConns() == nil, "saving succeeds")
	path := config.CachePath + "conn.db"
	whole := true
	switch zzvnd.Choice("file", 4) {
	case 1:
		whole = false
		delete(zzw.FS.Files, path)
	case 2:
		b, _ := zzw.FS.Get(path)
		if k := zzvnd.Choice("cut", 8); k < len(b) {
			zzw.FS.Set(path, b[:k])
			whole = false
		}
	case 3:
		whole = false
		zzw.FS.Set(path, zzvnd.Bytes("junk", 12))
	}
	b := new(UDPTracker)
	b.Init(nil)
	if whole {
		zzConnCheck(b.conndb, ref)
		zzvnd.Reach("restored")
	} else {
		ref = nil
		zzvnd.Assert(b.Connections() == 0, "an unusable file leaves an empty connection database")
		zzvnd.Reach("fresh")
	}
	*now = zzw.BaseTime
	x, id := zzAP("n", 2), zzvnd.I64("nid")
	b.conndb.add(id, x)
	zzConnCheck(b.conndb, zzIssue(ref, x, id, *now))
	_ = c
}
