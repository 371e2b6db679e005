package udp

import (
	"net/netip"
	"time"

	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzConcur runs operations on the connections of a tracker at once and
// checks the outcome. One client's id has expired, another's has not.
func zzConcur(kinds []int) {
	c := zzh.Setup()
	c.UDP.ConnDB.Expiry = 100 * time.Second
	zzw.FS = zzw.NewFS()
	now := int64(zzw.BaseTime)
	zzw.NowHook = func() time.Time { return time.Unix(now, 0) }
	u := new(UDPTracker)
	u.Init(nil)
	old, live := netip.MustParseAddrPort("10.0.0.1:1"), netip.MustParseAddrPort("10.0.0.2:2")
	u.conndb.add(1, old)
	now += 200
	u.conndb.add(2, live)
	newID := make([]int64, len(kinds))
	for i := range newID {
		newID[i] = int64(10 + i)
	}
	checked, counted := make([]bool, len(kinds)), make([]int, len(kinds))
	saved := -1
	fs := make([]func(), 0, 4)
	trims, joins, rejoins := 0, 0, 0
	for i, k := range kinds {
		i := i
		switch k {
		case 0: // the client whose id expired connects again
			rejoins++
			fs = append(fs, func() { u.conndb.add(newID[i], old) })
		case 1: // the other one does
			joins++
			fs = append(fs, func() { u.conndb.add(newID[i], live) })
		case 2:
			trims++
			fs = append(fs, u.conndb.trim)
		case 3:
			fs = append(fs, func() { checked[i] = u.conndb.check(2, live) })
		case 4:
			fs = append(fs, func() { counted[i] = u.Connections() })
		case 5:
			saved = i
			fs = append(fs, func() { zzvnd.Assert(u.WriteConns() == nil, "a save succeeds") })
		}
	}
	zzvnd.Par(fs...)
	want := 1
	if trims == 0 || rejoins > 0 {
		want = 2
	}
	zzvnd.Assert(u.Connections() == want, "the number of connections is the number of ids")
	has := func(t *UDPTracker, a netip.AddrPort, first int64, kind int, must bool) {
		n := zzvnd.B2I(t.conndb.check(first, a))
		for i, k := range kinds {
			if k == kind && t.conndb.check(newID[i], a) {
				n++
			}
		}
		zzvnd.Assert(n <= 1 && (n == 1 || !must), "a client has one of the ids issued to it")
	}
	has(u, live, 2, 1, true)
	has(u, old, 1, 0, want == 2)
	if joins > 0 {
		zzvnd.Assert(!u.conndb.check(2, live), "a new connect replaces the id")
	}
	if rejoins > 0 {
		zzvnd.Assert(!u.conndb.check(1, old), "a new connect replaces the id")
	}
	for i, k := range kinds {
		if k == 3 && joins == 0 {
			zzvnd.Assert(checked[i], "an issued id is accepted")
		}
		if k == 4 {
			zzvnd.Assert(counted[i] == 2 || counted[i] == 1 && trims > 0, "a count is one of some moment")
		}
	}
	if saved >= 0 {
		v := new(UDPTracker)
		v.Init(nil)
		zzvnd.Assert(v.Connections() == 2 || v.Connections() == 1 && trims > 0, "a save holds the ids of some moment")
		has(v, live, 2, 1, true)
		has(v, old, 1, 0, trims == 0)
		zzvnd.Reach("saved")
	}
	zzvnd.Reach("done")
}

//verif:prop=C40 time=300 ttime=800 conc=100000 reach=done,saved bounds="two clients, one with an expired id; three (thorough four) operations at once, each a connect of either client, an expiry pass, a validation, a count or a save (at most one save), every interleaving at lock operations"
func VC40Concurrent() {
	kinds := make([]int, zzvnd.Bound(3, 4))
	for i := range kinds {
		kinds[i] = zzvnd.Choice("op", 6)
		if i > 0 && (kinds[i] < kinds[i-1] || kinds[i-1] == 5) {
			return
		}
	}
	zzConcur(kinds)
}
