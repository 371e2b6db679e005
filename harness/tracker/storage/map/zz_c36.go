package gomap

import (
	"os"
	"syscall"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C36 time=120 reach=done bounds="save then load of databases of up to 2 (thorough 3) arbitrary peers over an absent or arbitrary 5-byte previous file"
func VC36RoundTrip() {
	zzh.Setup()
	zzw.FS = zzw.NewFS()
	db, r := zzDB(zzvnd.Bound(2, 3), 3)
	path := config.Config.DB.Backup.Path
	if zzvnd.Bool("had") {
		zzw.FS.Set(path, zzvnd.Bytes("old", 5))
	}
	bck := &FileBackup{}
	zzvnd.Assert(bck.Init(db) == nil, "a file backup initialises")
	zzvnd.Assert(bck.Save() == nil, "a save without file errors succeeds")
	zzCheckPeers(db, r)
	back := new(Memory)
	b2 := &FileBackup{}
	zzvnd.Assert(b2.Init(back) == nil, "a file backup initialises")
	zzvnd.Assert(b2.Load() == nil, "a saved backup loads")
	zzvnd.Assert(back.Check(), "the restored database is usable")
	zzCheckPeers(back, r)
	zzCheckCounts(back, r, r.hashes())
	zzvnd.Reach("done")
}

//verif:prop=C36 time=60 reach=done bounds="no backup file; one arbitrary announce afterwards"
func VC36Missing() {
	zzh.Setup()
	zzw.FS = zzw.NewFS()
	db := new(Memory)
	bck := &FileBackup{}
	zzvnd.Assert(bck.Init(db) == nil, "a file backup initialises")
	zzvnd.Assert(bck.Load() == nil, "a missing backup file is not an error")
	zzvnd.Assert(db.Check() && db.Hashes() == 0, "a missing backup file yields an empty usable database")
	h, id := zzHash("hash"), zzID("id")
	db.Save(zzAddr("ip", 2), zzvnd.U16("port"), zzvnd.Bool("complete"), h, id)
	c, i := db.HashStats(h)
	zzvnd.Assert(c+i == 1, "the empty database accepts announces")
	zzvnd.Reach("done")
}

//verif:prop=C36 time=120 reach=failed,loaded bounds="every single or permanent operation failure within the first 6 operations of a load (a single one with an I/O, permission, not-a-directory, interrupted or time-out error); one arbitrary peer, or 23 or 59 arbitrary bytes, in the file"
func VC36LoadErrors() {
	zzh.Setup()
	db, r := zzDB(1, 2)
	data, err := db.encodeBinary()
	zzvnd.Assert(err == nil, "any database encodes")
	junk := zzvnd.Choice("contents", 3)
	if junk > 0 {
		data = zzvnd.Bytes("data", []int{23, 59}[junk-1])
	}
	probe := new(Memory)
	_, _, derr := probe.decodeBinary(data)
	p := zzh.NewFSPlan(6)
	p.Errs = []error{zzw.ErrIO, syscall.EACCES, syscall.ENOTDIR, syscall.EINTR, os.ErrDeadlineExceeded}
	p.FS.Set(config.Config.DB.Backup.Path, data)
	back := new(Memory)
	bck := &FileBackup{}
	zzvnd.Assert(bck.Init(back) == nil, "a file backup initialises")
	err, died := p.Run(bck.Load)
	if died {
		return
	}
	if err != nil {
		zzvnd.Assert(p.Hit || derr != nil, "a load fails only when the file is unreadable or damaged")
		zzvnd.Reach("failed")
		return
	}
	zzvnd.Assert(derr == nil, "damaged contents are an error")
	zzvnd.Reach("loaded")
	zzvnd.Assert(back.Check(), "a loaded database is usable")
	if junk == 0 {
		zzCheckPeers(back, r)
	} else {
		zzConsistent(back)
	}
}
