package gomap

import (
	"net/netip"

	"github.com/crimist/trakx/tracker/storage"
)

// ZZPeer is a stored peer, for harnesses of other packages.
type ZZPeer struct {
	Hash     storage.Hash
	ID       storage.PeerID
	IP       netip.Addr
	Port     uint16
	Complete bool
	Seen     int64
}

// ZZNew returns an empty database.
func ZZNew() *Memory {
	db := new(Memory)
	db.make()
	return db
}

// ZZPeers lists the stored peers.
func ZZPeers(db *Memory) (l []ZZPeer) {
	for h, pm := range db.hashmap {
		for id, p := range pm.Peers {
			l = append(l, ZZPeer{h, id, p.IP, p.Port, p.Complete, p.LastSeen})
		}
	}
	return
}
