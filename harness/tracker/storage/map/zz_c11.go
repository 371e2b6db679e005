package gomap

import (
	"database/sql"
	"errors"
	"strings"
	"time"

	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzRow is a stored backup row.
type zzRow struct {
	data []byte
	ts   time.Time
}

// zzPg is a one-table Postgres: statements are recognised by their verb, and
// a query yields the row its ORDER BY clause (or MAX) selects: the newest or
// oldest by time, or the last or first as they lie in the table.
type zzPg struct {
	sql     *zzw.SQLDB
	rows    []zzRow // as they lie in the table
	reads   int
	inserts int
	readErr []error // the i-th read fails
	insErr  error
	onRead  func(i int)
}

func zzNewPg() *zzPg {
	p := &zzPg{sql: &zzw.SQLDB{}}
	p.sql.RowF = func(q string, args []any) *zzw.SQLRow {
		u := strings.ToUpper(q)
		zzvnd.Assert(strings.HasPrefix(strings.TrimSpace(u), "SELECT"), "loading only reads")
		i := p.reads
		p.reads++
		if p.onRead != nil {
			p.onRead(i)
		}
		if i < len(p.readErr) && p.readErr[i] != nil {
			return &zzw.SQLRow{Err: p.readErr[i]}
		}
		if len(p.rows) == 0 {
			return &zzw.SQLRow{Err: sql.ErrNoRows}
		}
		row := p.rows[0]
		_, order, _ := strings.Cut(u, "ORDER BY ")
		desc := strings.Contains(order, " DESC")
		switch {
		case strings.HasPrefix(order, "CTID"):
			if desc {
				row = p.rows[len(p.rows)-1]
			}
		case order != "":
			row = p.byTime(desc)
		case strings.Contains(u, "MAX("):
			row = p.byTime(true)
		}
		return &zzw.SQLRow{Scn: func(dest []any) error {
			for _, d := range dest {
				switch x := d.(type) {
				case *[]byte:
					*x = append([]byte(nil), row.data...)
				case *time.Time:
					*x = row.ts
				default:
					return errors.New("unsupported destination")
				}
			}
			return nil
		}}
	}
	p.sql.ExecF = func(q string, args []any) (sql.Result, error) {
		u := strings.ToUpper(strings.TrimSpace(q))
		if strings.HasPrefix(u, "INSERT") {
			p.inserts++
			if p.insErr != nil {
				return nil, p.insErr
			}
			zzvnd.Assert(len(args) == 1, "the insert carries the encoded database")
			b, ok := args[0].([]byte)
			zzvnd.Assert(ok, "the insert carries bytes")
			p.rows = append(p.rows, zzRow{append([]byte(nil), b...), zzw.TimeNow()})
		}
		return &zzw.Result{N: 1}, nil
	}
	zzw.SQLOpenHook = func(string, string) (*zzw.SQLDB, error) { return p.sql, nil }
	return p
}

// byTime is the newest or the oldest row.
func (p *zzPg) byTime(newest bool) zzRow {
	row := p.rows[0]
	for _, r := range p.rows[1:] {
		if newest && r.ts.Unix() > row.ts.Unix() || !newest && r.ts.Unix() < row.ts.Unix() {
			row = r
		}
	}
	return row
}

func zzPgBackup(db *Memory) *PgBackup {
	bck := &PgBackup{}
	zzvnd.Assert(bck.Init(db) == nil, "a reachable database initialises")
	return bck
}

//verif:prop=C11 time=120 reach=saved,failed bounds="databases of up to 2 (thorough 3) arbitrary peers, an earlier row present or not; the insert succeeds or fails; then a load within 10 minutes"
func VC11SaveLoad() {
	c := zzh.Setup()
	c.DB.Backup.Path = "postgres://x"
	db, r := zzDB(zzvnd.Bound(2, 3), 2)
	now := zzClock()
	p := zzNewPg()
	if zzvnd.Bool("earlier") {
		p.rows = []zzRow{{zzvnd.Bytes("old", 24), time.Unix(*now-5, 0)}}
	}
	n := len(p.rows)
	if zzvnd.Bool("fails") {
		p.insErr = errors.New("disk full")
	}
	bck := zzPgBackup(db)
	err := bck.Save()
	zzvnd.Assert(p.inserts == 1, "a save issues exactly one insert")
	zzvnd.Assert(p.sql.Open == 0, "a save leaves no result set open")
	if p.insErr != nil {
		zzvnd.Assert(err != nil, "a failed insert is reported")
		zzvnd.Reach("failed")
		return
	}
	zzvnd.Assert(err == nil && len(p.rows) == n+1, "a save succeeds")
	zzCheckPeers(db, r)
	zzvnd.Reach("saved")
	back := new(Memory)
	b2 := zzPgBackup(back)
	zzvnd.Assert(b2.Load() == nil, "a saved backup loads")
	zzvnd.Assert(p.sql.Open == 0, "a load leaves no result set open")
	zzvnd.Assert(back.Check(), "the restored database is usable")
	zzCheckPeers(back, r)
	zzCheckCounts(back, r, r.hashes())
}

//verif:prop=C11 time=120 reach=empty,ok,error,waited bounds="no row or one of 0, 7, 24 or 59 arbitrary bytes of arbitrary age within 2^40 s, with an older row after it in the table or not; each of two reads may fail; the row may be replaced by a newer one during the wait"
func VC11Load() {
	c := zzh.Setup()
	c.DB.Backup.Path = "postgres://x"
	now := zzClock()
	p := zzNewPg()
	rows := zzvnd.Bool("rows")
	age := zzvnd.Range64("age", -1000, 1<<40)
	lens := []int{0, 7, 24, 59}
	if rows {
		p.rows = []zzRow{{zzvnd.Bytes("row", lens[zzvnd.Choice("rowlen", 4)]), time.Unix(*now-age, 0)}}
		if zzvnd.Choice("older", 2) == 1 { // in a reused place after it
			p.rows = append(p.rows, zzRow{zzvnd.Bytes("olderrow", 24), time.Unix(*now-age-100, 0)})
		}
	}
	fail := zzvnd.Choice("fail", 3)
	p.readErr = []error{nil, nil}
	if fail > 0 {
		p.readErr[fail-1] = errors.New("connection reset")
	}
	newer := zzvnd.Choice("newer", 3)
	waits := 0
	zzw.SleepHook = func(d time.Duration) {
		waits++
		zzvnd.Assert(waits <= 1, "loading waits at most once")
		*now += int64(d / time.Second)
		switch newer {
		case 1:
			p.rows = append(p.rows, zzRow{zzvnd.Bytes("new", 24), time.Unix(*now, 0)})
		case 2: // still too old
			p.rows = append(p.rows, zzRow{zzvnd.Bytes("new", 7), time.Unix(*now-5000, 0)})
		}
	}
	db := new(Memory)
	bck := zzPgBackup(db)
	err := bck.Load()
	zzvnd.Assert(waits <= 1, "loading waits at most once")
	zzvnd.Assert(p.sql.Open == 0 && p.inserts == 0, "a load leaves no result set open and writes nothing")
	if waits > 0 {
		zzvnd.Assert(age > 600, "a recent row is used at once")
		zzvnd.Reach("waited")
	}
	read := p.reads - 1 // the read that decides
	if p.readErr[0] != nil || (p.reads > 1 && p.readErr[1] != nil) {
		zzvnd.Assert(err != nil, "a failed read is reported")
		zzvnd.Reach("error")
		return
	}
	zzvnd.Assert(read <= 1, "at most two reads are made")
	if len(p.rows) == 0 {
		zzvnd.Assert(err == nil && db.Check() && db.Hashes() == 0, "an empty table is an empty database")
		zzvnd.Reach("empty")
		return
	}
	want := new(Memory)
	_, _, derr := want.decodeBinary(p.byTime(true).data)
	if derr != nil {
		zzvnd.Assert(err != nil, "a damaged row is reported")
		return
	}
	zzvnd.Assert(err == nil && db.Check(), "a valid row is restored")
	a, _ := want.encodeBinary()
	b, _ := db.encodeBinary()
	zzvnd.Assert(len(a) == len(b) && zzvnd.EqBytes(a, b), "the most recent row is restored")
	zzvnd.Reach("ok")
}

//verif:prop=C11 time=60 reach=ok,failed bounds="opening, ping or table creation fails, or none"
func VC11Init() {
	c := zzh.Setup()
	c.DB.Backup.Path = "postgres://x"
	fail := zzvnd.Choice("fail", 4)
	e := errors.New("refused")
	p := zzNewPg()
	zzw.SQLOpenHook = func(driver, dsn string) (*zzw.SQLDB, error) {
		zzvnd.Assert(dsn == "postgres://x", "the configured database is opened")
		if fail == 1 {
			return nil, e
		}
		return p.sql, nil
	}
	p.sql.PingF = func() error {
		if fail == 2 {
			return e
		}
		return nil
	}
	p.sql.ExecF = func(q string, args []any) (sql.Result, error) {
		if fail == 3 {
			return nil, e
		}
		return &zzw.Result{}, nil
	}
	bck := &PgBackup{}
	err := bck.Init(new(Memory))
	zzvnd.Assert((err != nil) == (fail > 0), "initialisation reports exactly the failing step")
	if fail > 0 {
		zzvnd.Reach("failed")
	} else {
		zzvnd.Assert(p.sql.Open == 0, "initialisation leaves no result set open")
		zzvnd.Reach("ok")
	}
}
