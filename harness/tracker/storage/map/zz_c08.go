package gomap

import (
	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
)

//verif:prop=C08 time=120 reach=died,failed,saved bounds="every crash point and every single or permanent operation failure within the first 16 points of a save; previous file absent or 5 arbitrary bytes; one arbitrary new peer; write failures after 0, 3 or all bytes"
func VC08Peers() {
	zzh.Setup()
	db, _ := zzDB(1, 2)
	want, err := db.encodeBinary()
	zzvnd.Assert(err == nil, "any database encodes")
	p := zzh.NewFSPlan(16)
	path := config.Config.DB.Backup.Path
	old := zzvnd.Bytes("old", 5)
	had := zzvnd.Bool("had")
	if had {
		p.FS.Set(path, old)
	}
	bck := &FileBackup{}
	zzvnd.Assert(bck.Init(db) == nil, "a file backup initialises")
	db.backup = bck
	err, died := p.Run(bck.Save)
	got, ok := p.FS.Get(path)
	isOld := ok == had && (!ok || zzvnd.EqBytes(got, old))
	isNew := ok && zzvnd.EqBytes(got, want)
	zzvnd.Assert(zzvnd.Or(isOld, isNew), "the backup file holds the complete old or the complete new contents")
	if died {
		zzvnd.Reach("died")
	} else if err == nil {
		zzvnd.Assert(isNew, "a save reported as successful has saved")
		zzvnd.Reach("saved")
	} else {
		zzvnd.Assert(p.Hit, "a save fails only when a file operation failed")
		zzvnd.Reach("failed")
	}
	// whatever happened, the next save succeeds
	if died { // a new process
		db = new(Memory)
		_, _, err = db.decodeBinary(want)
		zzvnd.Assert(err == nil, "the encoding decodes")
		zzvnd.Assert(bck.Init(db) == nil, "a file backup initialises")
	}
	zzvnd.Assert(bck.Save() == nil, "a later save succeeds")
	got, ok = p.FS.Get(path)
	zzvnd.Assert(ok && zzvnd.EqBytes(got, want), "a later save saves")
}
