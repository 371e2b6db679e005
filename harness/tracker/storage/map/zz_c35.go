package gomap

import (
	"database/sql"
	"errors"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/tracker/storage"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

type zzFakeDB struct {
	storage.Database
	back       storage.Backup
	err, sync  error
	inits, syn int
}

func (f *zzFakeDB) Init(b storage.Backup) error {
	f.inits++
	f.back = b
	return f.err
}
func (f *zzFakeDB) SyncExpvars() error {
	f.syn++
	return f.sync
}

type zzFakeBack struct {
	storage.Backup
	name string
}

//verif:prop=C35 time=60 reach=ok,unknowndb,unknownbackup,failed bounds="two registered drivers with two backups each; configured names are arbitrary strings of 0 to 5 bytes; failing Init or SyncExpvars"
func VC35Names() {
	c := zzh.Setup()
	dbs := []*zzFakeDB{{}, {}}
	backs := []*zzFakeBack{{name: "b1"}, {name: "b2"}, {name: "b3"}, {name: "b1"}}
	storage.Register(storage.DatabaseInfo{Name: "one", DB: dbs[0], Backups: []storage.BackupInfo{{Name: "b1", Back: backs[0]}, {Name: "b2", Back: backs[1]}}})
	storage.Register(storage.DatabaseInfo{Name: "two", DB: dbs[1], Backups: []storage.BackupInfo{{Name: "b3", Back: backs[2]}, {Name: "b1", Back: backs[3]}}})
	c.DB.Type = zzvnd.Str("type", zzvnd.Choice("typelen", 6))
	c.DB.Backup.Type = zzvnd.Str("backup", zzvnd.Choice("backuplen", 6))
	if c.DB.Type == "gomap" {
		return
	}
	fail := zzvnd.Choice("fail", 3)
	for _, d := range dbs {
		if fail == 1 {
			d.err = errors.New("no")
		} else if fail == 2 {
			d.sync = errors.New("no")
		}
	}
	db, err := storage.Open()
	zzvnd.Assert((db == nil) == (err != nil), "opening returns a database or an error")
	k := -1
	if c.DB.Type == "one" {
		k = 0
	} else if c.DB.Type == "two" {
		k = 1
	}
	if k < 0 {
		zzvnd.Assert(err != nil, "an unknown database type is an error")
		zzvnd.Assert(dbs[0].inits+dbs[1].inits == 0, "nothing is initialised for an unknown database type")
		zzvnd.Reach("unknowndb")
		return
	}
	b := -1
	for i := 2 * k; i < 2*k+2; i++ {
		if backs[i].name == c.DB.Backup.Type {
			b = i
		}
	}
	if b < 0 {
		zzvnd.Assert(err != nil, "an unknown backup type is an error")
		zzvnd.Assert(dbs[0].inits+dbs[1].inits == 0, "nothing is initialised for an unknown backup type")
		zzvnd.Reach("unknownbackup")
		return
	}
	zzvnd.Assert(dbs[1-k].inits == 0, "only the configured database is initialised")
	zzvnd.Assert(dbs[k].inits == 1 && dbs[k].back == storage.Backup(backs[b]), "the configured database is initialised with the configured backup")
	if fail > 0 {
		zzvnd.Assert(err != nil, "a failing step is reported")
		zzvnd.Reach("failed")
		return
	}
	zzvnd.Assert(err == nil && db == storage.Database(dbs[k]), "the configured database is returned")
	zzvnd.Assert(dbs[k].syn == 1, "its statistics are synchronised")
	zzvnd.Reach("ok")
}

// zzOpened checks the opened database against the reference.
func zzOpened(db storage.Database, err error, r *zzRef, hit bool) bool {
	if err != nil {
		zzvnd.Assert(db == nil, "a failed open returns no database")
		zzvnd.Assert(hit, "opening fails only when a step failed")
		zzvnd.Reach("failed")
		return false
	}
	m, ok := db.(*Memory)
	zzvnd.Assert(ok && m != nil, "the map database is returned")
	zzvnd.Assert(m.Check() && m.Backup() != nil, "the opened database is initialised")
	zzCheckPeers(m, r)
	zzCheckCounts(m, r, r.hashes())
	zzCheckStats(r)
	zzvnd.Reach("ok")
	return true
}

//verif:prop=C35 time=120 reach=ok,failed bounds="file backup of up to 2 arbitrary peers, or missing, or 20 arbitrary damaged bytes; every single or permanent failure within the first 5 operations"
func VC35File() {
	c := zzh.Setup()
	src, r := zzDB(2, 2)
	data, err := src.encodeBinary()
	zzvnd.Assert(err == nil, "any database encodes")
	p := zzh.NewFSPlan(5)
	if p.Mode == 1 {
		return
	}
	bad := false
	switch zzvnd.Choice("file", 3) {
	case 0:
		p.FS.Set(c.DB.Backup.Path, data)
	case 1:
		r = new(zzRef)
	case 2:
		bad = true
		p.FS.Set(c.DB.Backup.Path, zzvnd.Bytes("bad", 20))
	}
	stats.ZZReset()
	var db storage.Database
	err, _ = p.Run(func() (e error) {
		db, e = storage.Open()
		return e
	})
	if bad {
		zzvnd.Assert(err != nil && db == nil, "a damaged backup is an error")
		return
	}
	zzOpened(db, err, r, p.Hit)
}

//verif:prop=C35 time=120 reach=ok,failed bounds="Postgres backup of up to 2 arbitrary peers; opening, ping, table creation or reading fails"
func VC35Postgres() {
	c := zzh.Setup()
	c.DB.Backup.Type = "pg"
	c.DB.Backup.Path = "postgres://x"
	src, r := zzDB(2, 2)
	data, err := src.encodeBinary()
	zzvnd.Assert(err == nil, "any database encodes")
	now := zzClock()
	fail := zzvnd.Choice("fail", 5)
	e := errors.New("refused")
	pg := &zzw.SQLDB{}
	zzw.SQLOpenHook = func(driver, dsn string) (*zzw.SQLDB, error) {
		zzvnd.Assert(driver == "postgres" && dsn == "postgres://x", "the configured database is opened")
		if fail == 1 {
			return nil, e
		}
		return pg, nil
	}
	pg.PingF = func() error {
		if fail == 2 {
			return e
		}
		return nil
	}
	pg.ExecF = func(q string, args []any) (sql.Result, error) {
		if fail == 3 {
			return nil, e
		}
		return &zzw.Result{}, nil
	}
	pg.RowF = func(q string, args []any) *zzw.SQLRow {
		if fail == 4 {
			return &zzw.SQLRow{Err: e}
		}
		return &zzw.SQLRow{Scn: func(dest []any) error {
			*dest[0].(*[]byte) = data
			*dest[1].(*time.Time) = time.Unix(*now, 0)
			return nil
		}}
	}
	stats.ZZReset()
	db, err := storage.Open()
	if zzOpened(db, err, r, fail > 0) {
		zzvnd.Assert(fail == 0, "a failing step is an error")
	}
}

//verif:prop=C35 time=60 reach=done bounds="no backup"
func VC35None() {
	c := zzh.Setup()
	c.DB.Backup.Type = "none"
	zzw.FS = zzw.NewFS()
	db, err := storage.Open()
	zzOpened(db, err, new(zzRef), false)
	db.Save(zzSomeIP, zzvnd.U16("port"), zzvnd.Bool("complete"), zzHash("hash"), zzID("id"))
	zzvnd.Assert(db.Hashes() == 1, "the opened database accepts announces")
	zzvnd.Assert(db.Backup().Save() == nil && len(zzw.FS.Log) == 0, "no backup writes nothing")
	zzvnd.Reach("done")
}

//verif:prop=C35 time=120 reach=done bounds="backup period and expiry period zero or positive; one tick of each; one peer, arbitrary age"
func VC35Periodic() {
	c := zzh.Setup()
	now := zzClock()
	zzw.FS = zzw.NewFS()
	if zzvnd.Bool("backups") {
		c.DB.Backup.Frequency = 100 * time.Second
	}
	if zzvnd.Bool("trims") {
		c.DB.Trim = 200 * time.Second
	}
	gate, asleep := make(chan struct{}), 0
	zzw.SleepHook = func(d time.Duration) {
		asleep++
		if asleep > zzvnd.B2I(c.DB.Backup.Frequency > 0)+zzvnd.B2I(c.DB.Trim > 0) {
			select {} // the second tick never comes
		}
		<-gate
	}
	db, err := storage.Open()
	zzvnd.Assert(err == nil && db != nil, "opening with a missing file succeeds")
	h := zzHash("hash")
	db.Save(zzSomeIP, 1, true, h, zzID("id"))
	age := zzvnd.Range64("age", 0, 1<<20)
	zzvnd.Settle()
	*now += age
	close(gate)
	zzvnd.Settle()
	_, saved := zzw.FS.Get(config.Config.DB.Backup.Path)
	zzvnd.Assert(saved == (c.DB.Backup.Frequency > 0), "periodic backups are made exactly when configured")
	n, _ := db.HashStats(h)
	zzvnd.Assert((n == 0) == zzvnd.And(c.DB.Trim > 0, age > 600), "periodic expiry runs exactly when configured")
	zzvnd.Reach("done")
}
