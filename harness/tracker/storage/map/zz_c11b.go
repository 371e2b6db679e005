package gomap

import (
	"database/sql"
	"errors"
	"strings"

	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C11 time=60 reach=ok,failed bounds="each of the statements of a row trim, or the row count of each, may fail"
func VC11Trim() {
	zzh.Setup()
	p := zzNewPg()
	fail := zzvnd.Choice("fail", 5)
	e := errors.New("refused")
	n := []int64{zzvnd.Range64("n", 0, 1<<40), zzvnd.Range64("n", 0, 1<<40)}
	i := 0
	bck := zzPgBackup(new(Memory))
	p.sql.ExecF = func(q string, args []any) (sql.Result, error) {
		zzvnd.Assert(strings.HasPrefix(q, "DELETE FROM trakx WHERE"), "a trim only removes selected rows")
		k := i
		i++
		zzvnd.Assert(k < 2, "a trim makes at most two deletions")
		if fail == 2*k+1 {
			return nil, e
		}
		r := &zzw.Result{N: n[k]}
		if fail == 2*k+2 {
			r.Err = e
		}
		return r, nil
	}
	got, err := bck.trim()
	zzvnd.Assert((err != nil) == (fail > 0), "a trim reports exactly the failing step")
	if err == nil {
		zzvnd.Assert(got == n[0]+n[1], "a trim reports the removed rows")
		zzvnd.Reach("ok")
	} else {
		zzvnd.Reach("failed")
	}
}
