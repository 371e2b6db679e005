package udp

import "github.com/crimist/trakx/zzvnd"

//verif:prop=C32 time=300 conc=100000 reach=done bounds="two UDP datagrams (each an announce, scrape or short announce) handled by two threads at once, recycling eagerly, every interleaving at lock, channel and pool operations with up to 1 (thorough 2) preemptions"
func VC32UDP() {
	zzvnd.Flag("pools", 1)
	zzvnd.Flag("preempt", zzvnd.Bound(1, 2))
	kinds := [2]int{1 + zzvnd.Choice("a", 3), 1 + zzvnd.Choice("b", 3)}
	rs, db := zzTraffic(zzPair(kinds))
	zzPairReplies(kinds, rs, db)
	zzvnd.Reach("done")
}
