package gomap

import (
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C06 time=120 reach=done bounds="databases of up to 2 (thorough 3) arbitrary peers (IPv4, IPv6 or IPv4-mapped addresses, any port, completeness, time in +-2^40 s) over arbitrary hashes and ids (all aliasings), optionally with an emptied swarm, any map order; binary encoding"
func VC06RoundTrip() {
	zzvnd.Flag("maporder", 1)
	zzh.Setup()
	db, r := zzDB(zzvnd.Bound(2, 3), 3)
	var hs []storage.Hash
	for _, e := range r.ents {
		hs = append(hs, e.h)
	}
	if len(r.ents) > 0 && zzvnd.Choice("empty", 2) == 1 {
		db.Drop(r.ents[0].h, r.ents[0].id)
		r.drop(r.ents[0].h, r.ents[0].id)
	}
	want := len(db.hashmap)
	b, err := db.encodeBinary()
	zzvnd.Assert(err == nil, "any database encodes")
	// decoding replaces whatever was there
	back := new(Memory)
	if zzvnd.Choice("over", 2) == 1 {
		back.make()
		back.Save(zzSomeIP, 1, true, storage.Hash{0xff}, storage.PeerID{0xff})
	}
	peers, hashes, err := back.decodeBinary(b)
	zzvnd.Assert(err == nil, "the encoded form decodes")
	zzCheckPeers(back, r)
	zzCheckCounts(back, r, hs)
	zzvnd.Assert(peers == len(r.live()), "the number of restored peers is reported")
	zzvnd.Assert(hashes == want && len(back.hashmap) == want, "the number of restored hashes is reported")
	zzvnd.Reach("done")
}
