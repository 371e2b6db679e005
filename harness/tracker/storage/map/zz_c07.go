package gomap

import (
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C07 time=200 reach=ok,error alloc=50331648 bounds="every byte string of the lengths 0, 1, 19, 20, 23, 24, 44, 45, 48, 49, 53, 62, 63, 75, 87, 102 (thorough: every length up to 130): up to two swarms or peers"
func VC07Any() {
	zzh.Setup()
	zzClock()
	lens := []int{0, 1, 19, 20, 23, 24, 44, 45, 48, 49, 53, 62, 63, 75, 87, 102}
	n := 0
	if zzvnd.Deep() {
		n = zzvnd.Choice("len", 131)
	} else {
		n = lens[zzvnd.Choice("len", len(lens))]
	}
	data := zzvnd.Bytes("data", n)
	var db Memory
	_, _, err := db.decodeBinary(data)
	if err != nil {
		zzvnd.Reach("error")
		return
	}
	zzvnd.Reach("ok")
	zzConsistent(&db)
	zzvnd.Assert(db.Check(), "the restored database is usable")
}

//verif:prop=C07 time=120 reach=done bounds="databases of 1 or 2 arbitrary peers, cut after every number of bytes"
func VC07Cut() {
	zzh.Setup()
	db, _ := zzDB(2, 2)
	b, err := db.encodeBinary()
	zzvnd.Assert(err == nil, "any database encodes")
	if len(b) == 0 {
		return
	}
	k := zzvnd.Choice("cut", len(b)+1)
	// the boundaries of swarm records
	bound := map[int]bool{0: true}
	at := 0
	for at < len(b) {
		cnt := int(b[at+20])
		at += 24
		for ; cnt > 0; cnt-- {
			at += 25 + int(b[at+21]) + 10
		}
		bound[at] = true
	}
	zzvnd.Assert(at == len(b), "the encoding consists of swarm records")
	var back Memory
	_, _, err = back.decodeBinary(b[:k])
	if bound[k] {
		zzvnd.Assert(err == nil, "whole records decode")
		zzConsistent(&back)
	} else {
		zzvnd.Assert(err != nil, "a backup cut inside a record is an error")
	}
	zzvnd.Reach("done")
}
