package protocol

import (
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzvnd"
)

// reference big-endian writer
type zzbuf struct{ b []byte }

func (w *zzbuf) u(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		w.b = append(w.b, byte(v>>(8*uint(i))))
	}
}

func zzArr(l string) (a [20]byte) {
	copy(a[:], zzvnd.Bytes(l, 20))
	return
}

//verif:prop=C15 time=60 reach=done bounds="all field values of a connect request and response"
func VC15Connect() {
	c := Connect{ProtcolID: zzvnd.I64("pid"), Action: Action(zzvnd.I32("act")), TransactionID: zzvnd.I32("tx")}
	b, err := c.Marshall()
	zzvnd.Assert(err == nil, "connect encodes")
	var w zzbuf
	w.u(uint64(c.ProtcolID), 8)
	w.u(uint64(uint32(c.Action)), 4)
	w.u(uint64(uint32(c.TransactionID)), 4)
	zzvnd.Assert(len(b) == 16, "connect request is 16 bytes")
	zzvnd.Assert(zzvnd.EqBytes(b, w.b), "connect request layout")
	var d Connect
	zzvnd.Assert(d.Unmarshall(w.b) == nil, "connect decodes")
	zzvnd.Assert(zzvnd.And(d.ProtcolID == c.ProtcolID, zzvnd.And(d.Action == c.Action, d.TransactionID == c.TransactionID)), "connect request decodes to its fields")

	r := ConnectResp{Action: Action(zzvnd.I32("ract")), TransactionID: zzvnd.I32("rtx"), ConnectionID: zzvnd.I64("cid")}
	b, err = r.Marshall()
	zzvnd.Assert(err == nil, "connect response encodes")
	var x zzbuf
	x.u(uint64(uint32(r.Action)), 4)
	x.u(uint64(uint32(r.TransactionID)), 4)
	x.u(uint64(r.ConnectionID), 8)
	zzvnd.Assert(len(b) == 16, "connect response is 16 bytes")
	zzvnd.Assert(zzvnd.EqBytes(b, x.b), "connect response layout")
	var e ConnectResp
	zzvnd.Assert(e.Unmarshall(x.b) == nil, "connect response decodes")
	zzvnd.Assert(zzvnd.And(e.ConnectionID == r.ConnectionID, zzvnd.And(e.Action == r.Action, e.TransactionID == r.TransactionID)), "connect response decodes to its fields")
	zzvnd.Observe("b", b)
	zzvnd.Reach("done")
}

//verif:prop=C15 time=60 reach=done bounds="all field values of an announce request"
func VC15Announce() {
	a := Announce{ConnectionID: zzvnd.I64("cid"), Action: Action(zzvnd.I32("act")), TransactionID: zzvnd.I32("tx"), InfoHash: storage.Hash(zzArr("hash")), PeerID: storage.PeerID(zzArr("peer")),
		Downloaded: zzvnd.I64("down"), Left: zzvnd.I64("left"), Uploaded: zzvnd.I64("up"), Event: event(zzvnd.I32("ev")), IP: zzvnd.U32("ip"), Key: zzvnd.U32("key"), NumWant: zzvnd.I32("nw"), Port: zzvnd.U16("port")}
	var w zzbuf
	w.u(uint64(a.ConnectionID), 8)
	w.u(uint64(uint32(a.Action)), 4)
	w.u(uint64(uint32(a.TransactionID)), 4)
	w.b = append(w.b, a.InfoHash[:]...)
	w.b = append(w.b, a.PeerID[:]...)
	w.u(uint64(a.Downloaded), 8)
	w.u(uint64(a.Left), 8)
	w.u(uint64(a.Uploaded), 8)
	w.u(uint64(uint32(a.Event)), 4)
	w.u(uint64(a.IP), 4)
	w.u(uint64(a.Key), 4)
	w.u(uint64(uint32(a.NumWant)), 4)
	w.u(uint64(a.Port), 2)
	b, err := a.Marshall()
	zzvnd.Assert(err == nil, "announce encodes")
	zzvnd.Assert(len(b) == 98, "announce request is 98 bytes")
	zzvnd.Assert(zzvnd.EqBytes(b, w.b), "announce request layout")
	// clients may append extensions
	ext := zzvnd.Choice("ext", 3)
	w.b = append(w.b, zzvnd.Bytes("extdata", ext)...)
	var d Announce
	zzvnd.Assert(d.Unmarshall(w.b) == nil, "announce decodes")
	ok := zzvnd.And(d.ConnectionID == a.ConnectionID, d.Action == a.Action)
	ok = zzvnd.And(ok, zzvnd.And(d.TransactionID == a.TransactionID, zzvnd.EqBytes(d.InfoHash[:], a.InfoHash[:])))
	ok = zzvnd.And(ok, zzvnd.And(zzvnd.EqBytes(d.PeerID[:], a.PeerID[:]), d.Downloaded == a.Downloaded))
	ok = zzvnd.And(ok, zzvnd.And(d.Left == a.Left, d.Uploaded == a.Uploaded))
	ok = zzvnd.And(ok, zzvnd.And(d.Event == a.Event, d.IP == a.IP))
	ok = zzvnd.And(ok, zzvnd.And(d.Key == a.Key, d.NumWant == a.NumWant))
	ok = zzvnd.And(ok, d.Port == a.Port)
	zzvnd.Assert(ok, "announce request decodes to its fields")
	zzvnd.Reach("done")
}

//verif:prop=C15 time=60 reach=done bounds="all field values, peer lists of 0 to 4 (quick) or 0 to 24 (thorough) bytes"
func VC15AnnounceResp() {
	n := zzvnd.Choice("n", zzvnd.Bound(5, 25))
	r := AnnounceResp{Action: Action(zzvnd.I32("act")), TransactionID: zzvnd.I32("tx"), Interval: zzvnd.I32("int"), Leechers: zzvnd.I32("l"), Seeders: zzvnd.I32("s"), Peers: zzvnd.Bytes("peers", n)}
	var w zzbuf
	w.u(uint64(uint32(r.Action)), 4)
	w.u(uint64(uint32(r.TransactionID)), 4)
	w.u(uint64(uint32(r.Interval)), 4)
	w.u(uint64(uint32(r.Leechers)), 4)
	w.u(uint64(uint32(r.Seeders)), 4)
	w.b = append(w.b, r.Peers...)
	b, err := r.Marshall()
	zzvnd.Assert(err == nil, "announce response encodes")
	zzvnd.Assert(zzvnd.EqBytes(b, w.b), "announce response layout")
	var d AnnounceResp
	zzvnd.Assert(d.Unmarshall(w.b) == nil, "announce response decodes")
	ok := zzvnd.And(d.Action == r.Action, d.TransactionID == r.TransactionID)
	ok = zzvnd.And(ok, zzvnd.And(d.Interval == r.Interval, d.Leechers == r.Leechers))
	ok = zzvnd.And(ok, zzvnd.And(d.Seeders == r.Seeders, zzvnd.EqBytes(d.Peers, r.Peers)))
	zzvnd.Assert(ok, "announce response decodes to its fields")
	zzvnd.Reach("done")
}

//verif:prop=C15 time=60 reach=done bounds="all field values, requests of 0 to 3 (quick) or 0 to 74 (thorough) hashes and responses of as many entries"
func VC15Scrape() {
	n := zzvnd.Choice("n", zzvnd.Bound(4, 75))
	var w zzbuf
	cid, act, tx := zzvnd.I64("cid"), zzvnd.I32("act"), zzvnd.I32("tx")
	w.u(uint64(cid), 8)
	w.u(uint64(uint32(act)), 4)
	w.u(uint64(uint32(tx)), 4)
	hs := zzvnd.Bytes("hashes", 20*n)
	w.b = append(w.b, hs...)
	var s Scrape
	zzvnd.Assert(s.Unmarshall(w.b) == nil, "scrape request decodes")
	zzvnd.Assert(len(s.InfoHashes) == n, "scrape request has all its hashes")
	ok := zzvnd.And(s.ConnectionID == cid, zzvnd.And(int32(s.Action) == act, s.TransactionID == tx))
	for i := 0; i < len(s.InfoHashes) && i < n; i++ {
		ok = zzvnd.And(ok, zzvnd.EqBytes(s.InfoHashes[i][:], hs[20*i:20*i+20]))
	}
	zzvnd.Assert(ok, "scrape request decodes to its fields")

	r := ScrapeResp{Action: Action(zzvnd.I32("ract")), TransactionID: zzvnd.I32("rtx")}
	var x zzbuf
	x.u(uint64(uint32(r.Action)), 4)
	x.u(uint64(uint32(r.TransactionID)), 4)
	for i := 0; i < n; i++ {
		in := ScrapeInfo{Complete: zzvnd.I32("c"), Incomplete: zzvnd.I32("i"), Downloaded: zzvnd.I32("d")}
		r.Info = append(r.Info, in)
		// BEP 15: seeders, completed (downloaded), leechers -- see VC15ScrapeOrder
		x.u(uint64(uint32(in.Complete)), 4)
		x.u(uint64(uint32(in.Downloaded)), 4)
		x.u(uint64(uint32(in.Incomplete)), 4)
	}
	b, err := r.Marshall()
	zzvnd.Assert(err == nil, "scrape response encodes")
	zzvnd.Assert(len(b) == 8+12*n, "scrape response has no extra bytes")
	if len(b) == 8+12*n {
		zzvnd.Assert(zzvnd.EqBytes(b[:8], x.b[:8]), "scrape response header layout")
		zzvnd.Assert(zzvnd.EqBytes(b, x.b), "scrape response entries are seeders, completed, leechers")
	}
	zzvnd.Reach("done")
}

//verif:prop=C15 time=60 reach=done bounds="all field values, messages of 0 to 5 (quick) or 0 to 40 (thorough) bytes"
func VC15Error() {
	n := zzvnd.Choice("n", zzvnd.Bound(6, 41))
	e := Error{Action: Action(zzvnd.I32("act")), TransactionID: zzvnd.I32("tx"), ErrorString: zzvnd.Bytes("msg", n)}
	var w zzbuf
	w.u(uint64(uint32(e.Action)), 4)
	w.u(uint64(uint32(e.TransactionID)), 4)
	w.b = append(w.b, e.ErrorString...)
	b, err := e.Marshall()
	zzvnd.Assert(err == nil, "error encodes")
	zzvnd.Assert(zzvnd.EqBytes(b, w.b), "error layout")
	var d Error
	zzvnd.Assert(d.Unmarshall(w.b) == nil, "error decodes")
	zzvnd.Assert(zzvnd.And(d.Action == e.Action, zzvnd.And(d.TransactionID == e.TransactionID, zzvnd.EqBytes(d.ErrorString, e.ErrorString))), "error decodes to its fields")
	zzvnd.Reach("done")
}
