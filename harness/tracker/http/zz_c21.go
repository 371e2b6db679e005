package http

import (
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C21 time=300 reach=none,bad,done bounds="up to 2 arbitrary stored peers; one scrape request of 0..3 (thorough 4) parameters, each info_hash with 20 arbitrary plain characters, a repeat of the previous hash, a stored hash, info_hash of 0, 19 or 21 characters, info_hash without a value, or another parameter"
func VC21Scrape() {
	s := zzServe(nil)
	before := s.store(zzvnd.Bound(1, 2))
	n := zzvnd.Choice("params", zzvnd.Bound(4, 5))
	var asked [][]byte
	bad := false
	q := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			q += "&"
		}
		kind := zzvnd.Choice("kind", 7)
		switch kind {
		case 0, 1, 2:
			var h []byte
			if kind == 1 && len(asked) > 0 {
				h = asked[len(asked)-1]
			} else {
				h = zzPlain("hash", 20)
				if kind == 2 && len(before) > 0 {
					zzvnd.Assume(zzvnd.EqBytes(h, before[0].Hash[:]))
				}
			}
			asked = append(asked, h)
			q += "info_hash=" + string(h)
		case 3:
			l := []int{0, 19, 21, 1}[zzvnd.Choice("len", 4)]
			bad = true
			q += "info_hash=" + string(zzPlain("odd", l))
		case 4:
			q += "info_hash"
		case 5:
			q += "Info_hash=" + string(zzPlain("oddcase", 20))
		case 6:
			q += "x=" + string(zzPlain("other", zzvnd.Choice("otherlen", 2)*18))
		}
	}
	target := "/scrape"
	if n > 0 {
		target += "?" + q
	}
	r := zzReply(s.get(target))
	zzvnd.Assert(zzSamePeers(before, gomap.ZZPeers(s.db)), "a scrape changes nothing")
	if bad || len(asked) == 0 {
		zzvnd.Assert(zzFailed(r), "a scrape of no hash or a hash of another length is refused")
		if bad {
			zzvnd.Reach("bad")
		} else {
			zzvnd.Reach("none")
		}
		return
	}
	f := r.get("files")
	zzvnd.Assert(len(r.k) == 1 && f != nil && f.kind == 'd', "a scrape reply has the files")
	if f == nil {
		return
	}
	zzvnd.Assert(len(f.k) <= len(asked), "a scrape reply has no other entries")
	for _, k := range f.k {
		any := false
		for _, h := range asked {
			any = zzvnd.Or(any, zzvnd.EqBytes(k, h))
		}
		zzvnd.Assert(any, "a scrape reply has no other entries")
	}
	for _, a := range asked {
		var h storage.Hash
		copy(h[:], a)
		c, i := zzCounts(before, h)
		found, right := false, true
		for k, e := range f.l {
			same := zzvnd.EqBytes(f.k[k], a)
			ec, ei := e.get("complete"), e.get("incomplete")
			if ec == nil || ei == nil {
				zzvnd.Fail("a scrape entry has counts")
				return
			}
			found = zzvnd.Or(found, same)
			right = zzvnd.And(right, zzvnd.Or(!same, zzvnd.And(int(ec.i) == c, int(ei.i) == i)))
		}
		zzvnd.Assert(found, "a scrape reply has an entry for each requested hash")
		zzvnd.Assert(right, "a scrape entry reports the stored counts")
	}
	zzvnd.Reach("done")
}
