package gomap

import (
	"net/netip"

	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

// zzSwarms stores up to max peers over up to two hashes and returns the ones
// of the asked hash.
func zzSwarms(db *Memory, max int, addr func(i int) netip.Addr, port func(i int) uint16) (h storage.Hash, es []*zzEnt, others bool) {
	h = zzHash("hash")
	n := zzvnd.Choice("peers", max+1)
	var r zzRef
	for i := 0; i < n; i++ {
		id := storage.PeerID{byte(i)}
		zzvnd.Fill("idtail", id[18:])
		ip, port, complete := addr(i), port(i), zzvnd.Bool("complete")
		db.Save(ip, port, complete, h, id)
		r.save(ip, port, complete, h, id, 0)
	}
	if zzvnd.Choice("other", 2) == 1 {
		o := zzHash("otherhash")
		zzvnd.Assume(o != h)
		db.Save(netip.AddrFrom4([4]byte{9, 9, 9, 9}), 99, true, o, storage.PeerID{})
		others = true
	}
	return h, r.live(), others
}

func zzMin(a, b uint) uint {
	if a < b {
		return a
	}
	return b
}

//verif:prop=C03 time=200 reach=done bounds="compact lists of a swarm of 0..3 peers with arbitrary IPv4, IPv6 or IPv4-mapped addresses and ports, any map order, any requested number (64 bits), an unknown hash, after an earlier response dirtied and returned the recycled buffers"
func VC03Compact() {
	zzvnd.Flag("maporder", 1)
	zzh.Setup()
	zzClock()
	var db Memory
	db.make()
	if zzvnd.Choice("dirty", 2) == 1 {
		a, b := pools.Peerlists4.Get(), pools.Peerlists6.Get()
		for _, x := range [][]byte{a, b} {
			for i := range x {
				x[i] = 0xee
			}
		}
		if zzvnd.Choice("short", 2) == 1 {
			a, b = a[:6], b[:0]
		}
		pools.Peerlists4.Put(a)
		pools.Peerlists6.Put(b)
	}
	h, es, _ := zzSwarms(&db, zzvnd.Bound(2, 3), func(int) netip.Addr { return zzAddr("ip", 3) }, func(int) uint16 { return zzvnd.U16("port") })
	if zzvnd.Choice("unknown", 2) == 1 {
		u := zzHash("unknownhash")
		zzvnd.Assume(db.hashmap[u] == nil)
		h, es = u, nil
	}
	want := uint(zzvnd.U64("want"))
	p4, p6 := db.PeerListBytes(h, want)
	zzvnd.Assert(len(p4)%6 == 0 && len(p6)%18 == 0, "compact lists hold whole entries")
	n := uint(len(p4)/6 + len(p6)/18)
	zzvnd.Assert(n == zzMin(want, uint(len(es))), "exactly min(wanted, swarm size) peers are listed")
	var v4, v6 []*zzEnt
	for _, e := range es {
		if e.ip.Is4() {
			v4 = append(v4, e)
		} else {
			v6 = append(v6, e)
		}
	}
	zzvnd.Assert(zzh.Injects(len(p4)/6, len(v4), func(i, j int) bool {
		return zzvnd.EqBytes(p4[6*i:6*i+6], zzCompact(v4[j]))
	}), "the IPv4 list holds distinct stored peers exactly")
	zzvnd.Assert(zzh.Injects(len(p6)/18, len(v6), func(i, j int) bool {
		return zzvnd.EqBytes(p6[18*i:18*i+18], zzCompact(v6[j]))
	}), "the IPv6 list holds distinct stored peers exactly")
	zzvnd.Reach("done")
}

//verif:prop=C03 time=200 reach=done bounds="dictionary lists of a swarm of 0..2 (thorough 3) peers (the first with an IPv4 address with an arbitrary last byte or one of 3 IPv6 forms and an arbitrary port, the others fixed; arbitrary id bytes), any map order, any requested number, with and without peer ids, an unknown hash, new or recycled encoders"
func VC03List() {
	zzvnd.Flag("maporder", 1)
	zzh.Setup()
	zzClock()
	var db Memory
	db.make()
	if zzvnd.Choice("dirty", 2) == 1 {
		d := pools.Dictionaries.Get()
		d.String("junk", "junk")
		pools.Dictionaries.Put(d)
	}
	h, es, _ := zzSwarms(&db, zzvnd.Bound(2, 3), func(i int) netip.Addr {
		if i > 0 {
			return []netip.Addr{netip.AddrFrom4([4]byte{203, 0, 113, 7}), netip.MustParseAddr("2001:db8::1")}[i-1]
		}
		switch zzvnd.Choice("ipform", 4) {
		case 0:
			return netip.AddrFrom4([4]byte{203, 0, 113, zzvnd.U8("ip")})
		case 1:
			return netip.MustParseAddr("2001:db8::1")
		case 2:
			return netip.MustParseAddr("1:2:3:4:5:6:7:8")
		}
		return netip.MustParseAddr("::ffff:1.2.3.4")
	}, func(i int) uint16 {
		if i > 0 {
			return uint16(i) * 30000
		}
		return zzvnd.U16("port")
	})
	if zzvnd.Choice("unknown", 2) == 1 {
		u := zzHash("unknownhash")
		zzvnd.Assume(db.hashmap[u] == nil)
		h, es = u, nil
	}
	want := uint(zzvnd.U64("want"))
	noid := zzvnd.Choice("noid", 2) == 1
	l := db.PeerList(h, want, noid)
	zzvnd.Assert(uint(len(l)) == zzMin(want, uint(len(es))), "exactly min(wanted, swarm size) peers are listed")
	zzvnd.Assert(zzh.Injects(len(l), len(es), func(i, j int) bool {
		if noid {
			return zzvnd.EqStr(string(l[i]), zzPeerDictNoID(es[j]))
		}
		return zzvnd.EqStr(string(l[i]), zzPeerDict(es[j]))
	}), "the list holds distinct stored peers exactly")
	zzvnd.Reach("done")
}
