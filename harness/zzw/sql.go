package zzw

import (
	"context"
	"database/sql"
	"encoding/gob"
	"errors"
	"expvar"
	"io"
	"net/http"
	"strings"

	"github.com/crimist/trakx/zzvnd"
	"github.com/kkyr/fig"
)

// SQLCall is one statement sent to the database.
type SQLCall struct {
	Kind  string // ping, exec, query, queryrow
	Query string
	Args  []any
}

// SQLDB is a fake database handle.
type SQLDB struct {
	Calls  []SQLCall
	Open   int // result sets not closed
	PingF  func() error
	ExecF  func(q string, args []any) (sql.Result, error)
	RowF   func(q string, args []any) *SQLRow
	Closed int
}

var SQLOpenHook func(driver, dsn string) (*SQLDB, error)

func SQLOpen(driver, dsn string) (*SQLDB, error) {
	if SQLOpenHook != nil {
		return SQLOpenHook(driver, dsn)
	}
	return nil, errors.New("sql: unknown driver")
}

func (d *SQLDB) Ping() error {
	d.Calls = append(d.Calls, SQLCall{Kind: "ping"})
	if d.PingF != nil {
		return d.PingF()
	}
	return nil
}
func (d *SQLDB) PingContext(context.Context) error { return d.Ping() }

// Result is a statement result.
type Result struct {
	N   int64
	Err error
}

func (r *Result) LastInsertId() (int64, error) { return 0, errors.New("not supported") }
func (r *Result) RowsAffected() (int64, error) { return r.N, r.Err }

func (d *SQLDB) Exec(q string, args ...any) (sql.Result, error) {
	d.Calls = append(d.Calls, SQLCall{"exec", q, args})
	if d.ExecF != nil {
		return d.ExecF(q, args)
	}
	return &Result{}, nil
}
func (d *SQLDB) ExecContext(_ context.Context, q string, args ...any) (sql.Result, error) {
	return d.Exec(q, args...)
}

func (d *SQLDB) Query(q string, args ...any) (*SQLRows, error) {
	d.Calls = append(d.Calls, SQLCall{"query", q, args})
	var row *SQLRow
	if d.RowF != nil && strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "SELECT") {
		row = d.RowF(q, args)
		if row.Err == sql.ErrNoRows {
			row = nil
		} else if row.Err != nil {
			return nil, row.Err
		}
	} else if d.ExecF != nil {
		if _, err := d.ExecF(q, args); err != nil {
			return nil, err
		}
	}
	d.Open++
	return &SQLRows{db: d, row: row}, nil
}
func (d *SQLDB) QueryContext(_ context.Context, q string, args ...any) (*SQLRows, error) {
	return d.Query(q, args...)
}

func (d *SQLDB) QueryRow(q string, args ...any) *SQLRow {
	d.Calls = append(d.Calls, SQLCall{"queryrow", q, args})
	if d.RowF != nil {
		return d.RowF(q, args)
	}
	return &SQLRow{Err: sql.ErrNoRows}
}
func (d *SQLDB) QueryRowContext(_ context.Context, q string, args ...any) *SQLRow {
	return d.QueryRow(q, args...)
}

func (d *SQLDB) Close() error { d.Closed++; return nil }

type SQLRows struct {
	db     *SQLDB
	row    *SQLRow
	at     int
	closed bool
}

func (r *SQLRows) Close() error {
	if !r.closed {
		r.closed = true
		r.db.Open--
	}
	return nil
}
func (r *SQLRows) Next() bool {
	if !r.closed && r.row != nil && r.at == 0 {
		r.at = 1
		return true
	}
	r.Close()
	return false
}
func (r *SQLRows) Err() error { return nil }
func (r *SQLRows) Scan(dest ...any) error {
	if r.closed || r.at != 1 {
		return errors.New("sql: Scan called without calling Next")
	}
	return r.row.Scan(dest...)
}

// SQLRow is a single-row result.
type SQLRow struct {
	Err error
	Scn func(dest []any) error
}

func (r *SQLRow) Scan(dest ...any) error {
	if r.Err != nil {
		return r.Err
	}
	return r.Scn(dest)
}

// ---- expvar ----

var Ints = map[string]*expvar.Int{}

func ExpvarNewInt(name string) *expvar.Int {
	v := new(expvar.Int)
	Ints[name] = v
	return v
}

// StatsBody is what the statistics page serves.
var StatsBody = []byte("{}\n")

type statsHandler struct{}

func (statsHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	w.Header()["Content-Type"] = []string{"application/json; charset=utf-8"}
	w.Write(StatsBody)
}

func ExpvarHandler() http.Handler { return statsHandler{} }

// ---- gob ----

type GobEncoder struct {
	w io.Writer
	e *gob.Encoder
}

func GobNewEncoder(w io.Writer) *GobEncoder {
	if zzvnd.Symbolic() {
		return &GobEncoder{w: w}
	}
	return &GobEncoder{e: gob.NewEncoder(w)}
}

func (e *GobEncoder) Encode(v any) error {
	if !zzvnd.Symbolic() {
		return e.e.Encode(v)
	}
	_, err := e.w.Write(zzvnd.Opaque(v))
	return err
}

type GobDecoder struct {
	r io.Reader
	d *gob.Decoder
}

func GobNewDecoder(r io.Reader) *GobDecoder {
	if zzvnd.Symbolic() {
		return &GobDecoder{r: r}
	}
	return &GobDecoder{d: gob.NewDecoder(r)}
}

// Decode accepts exactly what Encode wrote; anything else is an error.
func (d *GobDecoder) Decode(v any) error {
	if !zzvnd.Symbolic() {
		return d.d.Decode(v)
	}
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	if len(b) == 0 {
		return io.EOF
	}
	if !zzvnd.Unopaque(b, v) {
		return errors.New("gob: invalid data")
	}
	return nil
}

// ---- fig ----

var FigHook func(cfg any) error

func FigLoad(cfg any, opts ...fig.Option) error {
	if FigHook != nil {
		return FigHook(cfg)
	}
	return fig.ErrFileNotFound
}
