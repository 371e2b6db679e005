package zzmain

import (
	"errors"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

const (
	zzPid = "/run/trakx.pid"
	zzLog = "/log/trakx.log"
)

// zzHas reports whether b contains s.
func zzHas(b, s []byte) bool {
	has := false
	for i := 0; i+len(s) <= len(b); i++ {
		has = zzvnd.Or(has, zzvnd.EqBytes(b[i:i+len(s)], s))
	}
	return has
}

func zzCount(b []byte, s string) (n int) {
	for i := 0; i+len(s) <= len(b); i++ {
		if string(b[i:i+len(s)]) == s {
			n++
		}
	}
	return n
}

// zzCLI is a machine on which the command line is used.
type zzCLI struct {
	fs       *zzw.FSys
	recorded bool
	alive    bool
	alive0   bool  // was alive at first
	stuck    bool  // does not exit when told to
	sigErr   error // cannot be told to
	runErr   error // the tracker cannot be launched
	fsErr    error // the record cannot be changed
	signals  int
	launches int
	dials    int
	answers  bool
}

func zzNewCLI(cmd ...string) *zzCLI {
	w := &zzCLI{fs: zzw.NewFS()}
	c := zzh.Setup()
	config.ZZLoaded(c)
	c.Path.Pid, c.Path.Log = zzPid, zzLog
	c.UDP.Enabled = true
	c.UDP.Port = 1337
	zzw.FS = w.fs
	w.fs.Dirs["/run"], w.fs.Dirs["/log"] = true, true
	os.Args = append([]string{"/usr/bin/trakx"}, cmd...)
	zzw.Stdout.Buf, zzw.Stderr.Buf, zzw.Record = nil, nil, true
	zzw.NowHook = func() time.Time { return time.Unix(zzw.BaseTime, 0) }
	zzw.SleepHook = func(time.Duration) {}
	zzw.DialHook = func(network, addr string) (net.Conn, error) {
		w.dials++
		if w.answers {
			return &zzw.Conn{Remote: &zzw.Addr{S: addr}, In: []byte{0xff}}, nil
		}
		return nil, errors.New("refused")
	}
	w.fs.Fault = func(op, path string) (int, error) {
		if path != zzLog && op != "read" && op != "stat" {
			return 0, w.fsErr
		}
		return 0, nil
	}
	zzw.KillHook = func(p int, sig syscall.Signal) error {
		zzvnd.Assert(p == 42 && sig == 0, "only the recorded process is looked at")
		if w.alive {
			return nil
		}
		return syscall.ESRCH
	}
	zzw.SignalHook = func(p int, sig os.Signal) error {
		zzvnd.Assert(p == 42 && sig == os.Interrupt, "only the recorded process is told to stop")
		w.signals++
		if !w.alive {
			return os.ErrProcessDone
		}
		if w.sigErr != nil {
			return w.sigErr
		}
		w.alive = w.stuck
		return nil
	}
	zzw.StartHook = func(cmd *zzw.Cmd) (int, error) {
		w.launches++
		zzvnd.Assert(!w.alive, "nothing is launched while the old tracker runs")
		if w.runErr != nil {
			return 0, w.runErr
		}
		return 77, nil
	}
	return w
}

func (w *zzCLI) record() string {
	b, ok := w.fs.Get(zzPid)
	if !ok {
		return "none"
	}
	return string(b)
}

// run runs the command line; it reports the exit code.
func (w *zzCLI) run() int {
	code, exited := zzw.CatchExit(main)
	if !exited {
		return 0
	}
	return code & 0xff
}

// fails asserts that the command failed because of err.
func (w *zzCLI) fails(code int, err error) {
	zzvnd.Assert(code != 0, "a failed command exits with a failure")
	zzvnd.Assert(len(zzw.Stderr.Buf) > 0, "the reason is printed on stderr")
	if err != nil {
		zzvnd.Assert(zzHas(zzw.Stderr.Buf, []byte(err.Error())), "the reason is printed as it is")
	}
	zzvnd.Reach("failed")
}

func zzReason(label string) error {
	b := zzvnd.Bytes(label, 3)
	for _, c := range b {
		zzvnd.Assume(zzvnd.And(c > ' ', c < 0x7f))
	}
	return errors.New(string(b))
}

//verif:prop=C39 time=120 reach=failed,dead,started,stopped,restarted,reset,nothing bounds="every command, an unknown one of 2 arbitrary letters and none; a recorded process or none, alive, dead or deaf; signalling, launching or changing the record failing with any message of 3 printable bytes"
func VC39Commands() {
	cmds := [][]string{nil, {"status"}, {"start"}, {"stop"}, {"restart"}, {"reboot"}, {"reset"}, {"unknown"}}
	cmd := cmds[zzvnd.Choice("cmd", len(cmds))]
	if len(cmd) == 1 && cmd[0] == "unknown" {
		b := zzvnd.Bytes("letters", 2)
		for _, c := range b {
			zzvnd.Assume(zzvnd.And(c >= 'a', c <= 'z'))
		}
		cmd = []string{string(b)}
	}
	w := zzNewCLI(cmd...)
	if zzvnd.Choice("record", 2) == 1 {
		w.recorded = true
		w.fs.Set(zzPid, []byte("42"))
		w.alive = zzvnd.Choice("alive", 2) == 1
		w.alive0 = w.alive
		w.stuck = w.alive && zzvnd.Choice("stuck", 2) == 1
	}
	switch zzvnd.Choice("fault", 4) {
	case 1:
		w.sigErr = zzReason("signal")
	case 2:
		w.runErr = zzReason("launch")
	case 3:
		w.fsErr = zzReason("fs")
	}
	before := w.record()
	_, logged := w.fs.Get(zzLog)
	code := w.run()
	name := ""
	if len(cmd) == 1 {
		name = cmd[0]
	}
	started := func() {
		switch {
		case w.runErr != nil:
			zzvnd.Assert(w.launches == 1, "start launches one process")
			w.fails(code, w.runErr)
		case w.fsErr != nil:
			w.fails(code, w.fsErr)
		default:
			zzvnd.Assert(code == 0 && w.launches == 1 && w.record() == "77", "start launches and records one process")
			zzvnd.Reach("started")
		}
	}
	// stopped reports whether the recorded process is stopped.
	stopped := func() bool {
		switch {
		case !w.recorded:
			w.fails(code, nil)
			zzvnd.Assert(w.signals == 0 && w.record() == before, "stop without a recorded process does nothing")
		case !w.alive0 && w.record() == before:
			w.fails(code, nil)
			zzvnd.Reach("dead")
		case !w.alive0:
			return true // it has stopped, and is no longer recorded
		case w.sigErr != nil:
			w.fails(code, w.sigErr)
			zzvnd.Assert(w.record() == before, "a process that could not be stopped stays recorded")
		case w.stuck:
			w.fails(code, nil)
			zzvnd.Assert(w.record() == before, "a process that did not stop stays recorded")
		case w.fsErr != nil:
			w.fails(code, w.fsErr)
		default:
			zzvnd.Assert(w.signals == 1, "stop tells the recorded process once")
			return true
		}
		return false
	}
	switch name {
	case "start":
		zzvnd.Assert(w.signals == 0, "start signals nothing")
		if w.recorded {
			zzvnd.Assert(w.launches == 0 && w.record() == before, "start refuses while a process is recorded")
			w.fails(code, nil)
		} else {
			started()
		}
	case "stop":
		zzvnd.Assert(w.launches == 0, "stop launches nothing")
		if stopped() {
			zzvnd.Assert(code == 0 && w.record() != "42", "stop clears the record")
			zzvnd.Reach("stopped")
		}
	case "restart", "reboot":
		if stopped() {
			started()
			zzvnd.Reach("restarted")
		} else {
			zzvnd.Assert(w.launches == 0, "a tracker that was not stopped is not started again")
		}
	case "reset":
		zzvnd.Assert(w.launches == 0 && w.signals == 0, "reset only clears the record")
		if w.fsErr != nil {
			if w.recorded {
				w.fails(code, w.fsErr)
			} else if code != 0 {
				w.fails(code, nil)
			}
		} else if !w.recorded && code != 0 {
			w.fails(code, nil) // there is nothing to clear
		} else {
			zzvnd.Assert(code == 0 && (w.record() == "" || w.record() == "none"), "reset clears the record")
			zzvnd.Reach("reset")
		}
	default:
		_, now := w.fs.Get(zzLog)
		zzvnd.Assert(w.launches == 0 && w.signals == 0 && w.record() == before && now == logged, "any other command changes nothing")
		zzvnd.Assert(len(zzw.Stdout.Buf) > 0, "any other command says something")
		zzvnd.Reach("nothing")
	}
}

//verif:prop=C39 reach=shown bounds="status for a recorded process or none, alive or dead, the heartbeat answered or not"
func VC39Status() {
	w := zzNewCLI("status")
	n := 0
	if zzvnd.Choice("record", 2) == 1 {
		w.fs.Set(zzPid, []byte("42"))
		n++
		if w.alive = zzvnd.Choice("alive", 2) == 1; w.alive {
			n++
		}
	}
	if w.answers = zzvnd.Choice("answers", 2) == 1; w.answers {
		n++
	}
	code := w.run()
	zzvnd.Assert(code == 0, "status succeeds")
	zzvnd.Assert(zzCount(zzw.Stdout.Buf, "✅") == n && zzCount(zzw.Stdout.Buf, "❌") == 3-n, "status marks what holds and what does not")
	zzvnd.Reach("shown")
}

//verif:prop=C39 reach=ran bounds="execute, the UDP port taken"
func VC39Execute() {
	w := zzNewCLI("execute")
	asked := 0
	zzw.ListenUDPHook = func(_ string, a *net.UDPAddr) (*zzw.UDPConn, error) {
		asked++
		return nil, errors.New("address in use")
	}
	zzw.SleepHook = nil
	zzw.ExitHook = func(int) { select {} }
	go main()
	zzvnd.Settle()
	zzvnd.Assert(asked == 1, "execute runs the tracker in this process")
	zzvnd.Assert(w.launches == 0 && w.signals == 0 && w.record() == "none", "execute launches nothing and records nothing")
	zzvnd.Reach("ran")
}
