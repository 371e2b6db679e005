package controller

import (
	"os"
	"strings"
	"syscall"

	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzRecord puts a record in place; ok tells whether it names a process.
func zzRecord(fs *zzw.FSys) (pid int, ok bool) {
	switch zzvnd.Choice("record", 4) {
	case 0:
		return 0, false
	case 1:
		fs.Set(zzPid, nil)
		return 0, false
	case 2:
		b := zzvnd.Bytes("junk", 2)
		_, ok := zzAtoi(b)
		zzvnd.Assume(!ok)
		fs.Set(zzPid, b)
		return 0, false
	}
	b := zzvnd.Bytes("digits", 3)
	for _, c := range b {
		zzvnd.Assume(zzvnd.And(c >= '0', c <= '9'))
	}
	fs.Set(zzPid, b)
	pid, _ = zzAtoi(b)
	return pid, true
}

//verif:prop=C27 time=300 reach=refused,failed,started bounds="start with no record, an empty one, an arbitrary unreadable one of 2 bytes or any 3-digit one of a live or dead process; UDP and HTTP heartbeats disabled, failing, wrong or right; any 20-bit new process id; opening the log, launching or recording failing"
func VC27Start() {
	c, fs := zzWorld()
	zzClock()
	rec, recorded := zzRecord(fs)
	answers := zzTracker(c)
	before, had := fs.Get(zzPid)
	logFail := zzvnd.Choice("logfail", 2) == 1
	launchFail := zzvnd.Choice("launchfail", 2) == 1
	writeFail := zzvnd.Choice("writefail", 2) == 1
	fs.Fault = func(op, path string) (int, error) {
		if logFail && path == zzLog {
			return 0, zzErr
		}
		if writeFail && path != zzLog && op != "read" && op != "stat" {
			return 0, zzErr
		}
		return 0, nil
	}
	zzw.KillHook = func(p int, sig syscall.Signal) error {
		zzvnd.Assert(sig == 0, "start signals no process")
		zzvnd.Assert(p == rec, "only the recorded process is looked at")
		return []error{nil, syscall.ESRCH, syscall.EPERM}[zzvnd.Choice("alive", 3)]
	}
	zzw.SignalHook = func(int, os.Signal) error { zzvnd.Fail("start signals no process"); return nil }
	pid := int(zzvnd.Range64("pid", 1, 1<<20))
	launched := 0
	zzw.StartHook = func(cmd *zzw.Cmd) (int, error) {
		launched++
		zzvnd.Assert(len(cmd.Args) == 2 && cmd.Args[0] == os.Args[0] && cmd.Args[1] == "execute", "the tracker itself is launched")
		zzvnd.Assert(cmd.Stdout != nil && cmd.Stderr != nil, "the output goes to the log")
		if launchFail {
			return 0, zzErr
		}
		return pid, nil
	}
	err := NewController().Start()
	after, has := fs.Get(zzPid)
	same := had == has && zzvnd.EqBytes(before, after)
	if recorded || answers {
		zzvnd.Assert(err != nil && launched == 0, "start refuses when a process is recorded or a tracker answers")
		zzvnd.Assert(same, "a refused start changes nothing")
		zzvnd.Reach("refused")
		return
	}
	if logFail || launchFail || writeFail {
		zzvnd.Assert(err != nil, "a failed step is reported")
		zzvnd.Assert(launched == zzvnd.B2I(!logFail), "no step after a failed one is performed")
		if logFail || launchFail {
			zzvnd.Assert(same, "no step after a failed one is performed")
		}
		zzvnd.Reach("failed")
		return
	}
	zzvnd.Assert(err == nil && launched == 1, "start launches one process")
	got, ok := zzAtoi(after)
	zzvnd.Assert(ok && got == pid, "start records the process")
	rec = pid
	zzvnd.Assert(NewController().Start() != nil && launched == 1, "a second start refuses")
	zzvnd.Reach("started")
}

//verif:prop=C27 time=300 spins=5000 reach=norecord,nosignal,stuck,stopped,denied bounds="stop with no record, an empty one, an arbitrary unreadable one or any 3-digit one; signalling failing; the process gone at the 1st, 2nd, 50th, 99th to 103rd look, never, or the look failing otherwise; clearing failing"
func VC27Stop() {
	_, fs := zzWorld()
	slept := zzClock()
	rec, recorded := zzRecord(fs)
	before, had := fs.Get(zzPid)
	signalErr := zzvnd.Choice("signalfail", 2) == 1
	clearFail := zzvnd.Choice("clearfail", 2) == 1
	gone := []int{1, 2, 50, 99, 100, 101, 102, 103, 1 << 30}[zzvnd.Choice("gone", 9)]
	end := []error{syscall.ESRCH, syscall.EPERM}[zzvnd.Choice("end", 2)]
	signals, looks, exited := 0, 0, false
	fs.Fault = func(op, path string) (int, error) {
		if op != "read" && op != "stat" {
			zzvnd.Assert(exited, "the record is cleared only once the process has exited")
			if clearFail {
				return 0, zzErr
			}
		}
		return 0, nil
	}
	zzw.SignalHook = func(p int, sig os.Signal) error {
		signals++
		zzvnd.Assert(p == rec && sig == os.Interrupt, "only the recorded process is told to stop")
		if signalErr {
			return zzErr
		}
		return nil
	}
	zzw.KillHook = func(p int, sig syscall.Signal) error {
		zzvnd.Assert(p == rec && sig == 0, "only the recorded process is looked at")
		looks++
		zzvnd.Assert(!exited, "a process id is not looked at again once the process has exited")
		if looks < gone {
			return nil
		}
		exited = end == syscall.ESRCH
		return end
	}
	zzw.StartHook = func(cmd *zzw.Cmd) (int, error) { zzvnd.Fail("stop launches nothing"); return 0, zzErr }
	err := NewController().Stop()
	after, has := fs.Get(zzPid)
	same := had == has && zzvnd.EqBytes(before, after)
	switch {
	case !recorded:
		zzvnd.Assert(err != nil && signals == 0 && looks == 0 && same, "stop without a recorded process does nothing")
		zzvnd.Reach("norecord")
		return
	case signalErr:
		zzvnd.Assert(err != nil && looks == 0 && same, "a failed signal is reported and nothing else done")
		zzvnd.Reach("nosignal")
		return
	}
	zzvnd.Assert(signals == 1, "the recorded process is told to stop once")
	zzvnd.Assert(*slept <= 30e9, "waiting is bounded")
	if err == nil {
		zzvnd.Assert(exited && has && len(after) == 0, "a successful stop has cleared the record of an exited process")
		zzvnd.Reach("stopped")
		return
	}
	if !exited {
		zzvnd.Assert(same, "a process that has not exited stays recorded")
		zzvnd.Assert(gone < 1000 || *slept >= 5e9, "the process is given time to exit")
		if gone > 1000 {
			zzvnd.Reach("stuck")
		}
		if gone < 50 {
			zzvnd.Assert(strings.Contains(err.Error(), end.Error()), "the error of the failed step is reported")
			zzvnd.Reach("denied")
		}
		return
	}
	zzvnd.Assert(clearFail || gone >= 99, "a process that exits in time is stopped")
}

//verif:prop=C27 time=100 reach=done bounds="status with every kind of record, process and heartbeat; clearing with every kind of record"
func VC27Status() {
	c, fs := zzWorld()
	zzClock()
	rec, recorded := zzRecord(fs)
	answers := zzTracker(c)
	alive := zzvnd.Choice("alive", 3)
	zzw.KillHook = func(p int, sig syscall.Signal) error {
		zzvnd.Assert(sig == 0 && p == rec && recorded, "only the recorded process is looked at")
		return []error{nil, syscall.ESRCH, syscall.EPERM}[alive]
	}
	k := NewController()
	a, b, h := k.Status()
	zzvnd.Assert(a == recorded, "status tells whether a process is recorded")
	zzvnd.Assert(b == (recorded && alive == 0), "status tells whether the recorded process is alive")
	zzvnd.Assert(h == answers, "status tells whether a tracker answers")
	_, had := fs.Get(zzPid)
	err := k.Clear()
	after, has := fs.Get(zzPid)
	zzvnd.Assert((err == nil) == had && has == had && len(after) == 0, "clearing empties the record")
	zzvnd.Reach("done")
}
