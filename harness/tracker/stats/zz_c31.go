package stats

import (
	"net/netip"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

type zzDB struct {
	storage.Database
	hashes int
}

func (d *zzDB) Hashes() int { return d.hashes }

var zzKinds = []string{"hits", "connects", "announces", "scrapes"}

func zzCounter(i int) interface {
	Add(int64) int64
	Load() int64
} {
	switch i {
	case 0:
		return &Hits
	case 1:
		return &Connects
	case 2:
		return &Announces
	}
	return &Scrapes
}

func zzVar(name string) int64 {
	v := zzw.Ints["trakx."+name]
	if v == nil {
		zzvnd.Fail("the statistic is published: " + name)
		return 0
	}
	return v.Value()
}

// zzPublish publishes n times; after is called after each publication.
func zzPublish(n int, conns int64, after func()) {
	config.Config = &config.Configuration{ExpvarInterval: time.Second}
	config.Logger = zzw.NewLogger()
	pools.Initialize(3)
	done := 0
	first := true
	zzw.SleepHook = func(time.Duration) {
		if !first {
			after()
			if done++; done == n {
				panic("enough")
			}
		}
		first = false
	}
	_, ended := zzvnd.Catch(func() { Publish(&zzDB{hashes: 7}, func() int64 { return conns }) })
	zzvnd.Assert(ended && done == n, "statistics are published once per interval")
}

//verif:prop=C31 time=200 conc=100000 reach=done bounds="1 (thorough 2) publications while a request of any kind is handled and a peer joins, every interleaving at lock and atomic operations; any counts before; any 32-bit numbers of seeds and leeches"
func VC31Publish() {
	zzvnd.Flag("atomics", 1)
	var before, handled, published [4]int64
	for i := range before {
		before[i] = zzvnd.Range64("before", 0, 1<<40)
		handled[i] = before[i]
		zzCounter(i).Add(before[i] - zzCounter(i).Load())
	}
	seeds, leeches := int64(zzvnd.U32("seeds")), int64(zzvnd.U32("leeches"))
	Seeds.Store(seeds)
	Leeches.Store(leeches)
	kind := zzvnd.Choice("kind", 4)
	zzvnd.Par(func() {
		zzPublish(zzvnd.Bound(1, 2), 9, func() {
			for i, k := range zzKinds {
				published[i] += zzVar("requests." + k)
			}
			s, l, p := zzVar("database.seeds"), zzVar("database.leeches"), zzVar("database.peers")
			zzvnd.Assert(p == s+l, "published peers are the published seeds and leeches")
			zzvnd.Assert(zzvnd.Or(s == seeds, s == seeds+1), "published seeds are the seeds at some moment of the publication")
			zzvnd.Assert(l == leeches, "published leeches are the leeches")
		})
	}, func() {
		zzCounter(kind).Add(1)
		Seeds.Add(1)
	})
	handled[kind]++
	for i := range handled {
		zzvnd.Assert(published[i]+zzCounter(i).Load() == handled[i], "every request is published or still counted: "+zzKinds[i])
	}
	zzvnd.Reach("done")
}

//verif:prop=C31 time=100 reach=done bounds="a publication while addresses come and go in the address statistics, every interleaving at lock operations, with data races looked for"
func VC31Addresses() {
	ip := netip.AddrFrom4([4]byte{1, 2, 3, 4})
	ZZAdd(ip, 1)
	gone := zzvnd.Choice("gone", 2) == 1
	zzvnd.Par(func() {
		zzPublish(2, 9, func() {
			zzvnd.Assert(zzVar("database.hashes") == 7 && zzVar("database.udpconnections") == 9, "swarms and connections are published")
			if n := zzVar("database.ips"); n >= 0 {
				zzvnd.Assert(n == 1 || n == 2 && !gone || n == 0 && gone, "published addresses are those at some moment of the publication")
			}
		})
	}, func() {
		IPStats.Lock()
		if gone {
			IPStats.Remove(ip)
		} else {
			IPStats.Inc(ip.Next())
		}
		IPStats.Unlock()
	})
	zzvnd.Reach("done")
}

//verif:prop=C31 time=60 reach=done bounds="3 publications with any numbers of requests of each kind before each"
func VC31Rounds() {
	var now [4]int64
	more := func() {
		for i := range now {
			now[i] = zzvnd.Range64("requests", 0, 1<<40)
			zzCounter(i).Add(now[i])
		}
	}
	for i := range now {
		zzCounter(i).Add(-zzCounter(i).Load())
	}
	more()
	Seeds.Store(int64(zzvnd.U32("seeds")))
	Leeches.Store(int64(zzvnd.U32("leeches")))
	conns := int64(zzvnd.U32("conns"))
	ServerErrors.Store(int64(zzvnd.U32("server")))
	ClientErrors.Store(int64(zzvnd.U32("client")))
	zzPublish(3, conns, func() {
		for i, k := range zzKinds {
			zzvnd.Assert(zzVar("requests."+k) == now[i], "the requests since the last publication are published: "+k)
		}
		zzvnd.Assert(zzVar("database.seeds") == Seeds.Load() && zzVar("database.leeches") == Leeches.Load() && zzVar("database.udpconnections") == conns, "the database statistics are published")
		zzvnd.Assert(zzVar("errors.server") == ServerErrors.Load() && zzVar("errors.client") == ClientErrors.Load(), "the errors are published")
		more()
	})
	zzvnd.Reach("done")
}
