package zzw

import (
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/crimist/trakx/zzvnd"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
)

// ExitToken is the panic value that stands for process exit.
type ExitToken struct{ Code int }

var (
	Exits    []int
	ExitHook func(code int)
)

// OsExit never returns.
func OsExit(code int) {
	Exits = append(Exits, code)
	if ExitHook != nil {
		ExitHook(code)
	}
	panic(ExitToken{code})
}

// CatchExit runs f and reports whether it exited the process, and how.
func CatchExit(f func()) (code int, exited bool) {
	v, p := zzvnd.Catch(f)
	if !p {
		return 0, false
	}
	if t, ok := v.(ExitToken); ok {
		return t.Code, true
	}
	panic(v)
}

func ZapFatal() { OsExit(1) }

type fatalHook struct{}

func (fatalHook) OnWrite(*zapcore.CheckedEntry, []zapcore.Field) { ZapFatal() }

// Out is an output stream of the process; it keeps what is written while
// Record is set.
type Out struct{ Buf []byte }

var (
	Stdout, Stderr = &Out{}, &Out{}
	Record         bool
)

func (o *Out) Write(b []byte) (int, error) {
	if Record {
		o.Buf = append(o.Buf, b...)
	}
	return len(b), nil
}
func (o *Out) WriteString(s string) (int, error) { return o.Write([]byte(s)) }
func (o *Out) Sync() error                       { return nil }
func (o *Out) Close() error                      { return nil }

func FmtPrint(a ...any) (int, error) {
	if !Record {
		return 0, nil
	}
	return fmt.Fprint(Stdout, a...)
}

func FmtPrintln(a ...any) (int, error) {
	if !Record {
		return 0, nil
	}
	return fmt.Fprintln(Stdout, a...)
}

func FmtPrintf(f string, a ...any) (int, error) {
	if !Record {
		return 0, nil
	}
	return fmt.Fprintf(Stdout, f, a...)
}

func LogPrint(a ...any)            { fmt.Fprintln(Stderr, fmt.Sprint(a...)) }
func LogPrintln(a ...any)          { fmt.Fprintln(Stderr, a...) }
func LogPrintf(f string, a ...any) { fmt.Fprintln(Stderr, fmt.Sprintf(f, a...)) }
func LogFatal(a ...any)            { LogPrint(a...); OsExit(1) }
func LogFatalln(a ...any)          { LogPrintln(a...); OsExit(1) }
func LogFatalf(f string, a ...any) { LogPrintf(f, a...); OsExit(1) }

// ZapNew returns a logger whose Fatal calls OsExit.
func ZapNew(core zapcore.Core, opts ...zap.Option) *zap.Logger {
	if zzvnd.Symbolic() {
		return zap.NewNop()
	}
	return zap.New(core, append(opts, zap.WithFatalHook(fatalHook{}))...)
}

// NewLogger returns a silent logger whose Fatal calls OsExit.
func NewLogger() *zap.Logger {
	if zzvnd.Symbolic() {
		return zap.NewNop()
	}
	return zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(zap.NewProductionEncoderConfig()), zapcore.AddSync(io.Discard), zapcore.FatalLevel), zap.WithFatalHook(fatalHook{}))
}

// Process is a process handle.
type Process struct{ Pid int }

var (
	FindHook   func(pid int) (*Process, error)
	SignalHook func(pid int, sig os.Signal) error
	KillHook   func(pid int, sig syscall.Signal) error
	StartHook  func(c *Cmd) (pid int, err error)
	NotifyHook func(c chan<- os.Signal, sig []os.Signal)
)

func OsFindProcess(pid int) (*Process, error) {
	if FindHook != nil {
		return FindHook(pid)
	}
	return &Process{Pid: pid}, nil
}

func (p *Process) Signal(s os.Signal) error {
	if SignalHook != nil {
		return SignalHook(p.Pid, s)
	}
	return os.ErrProcessDone
}

func (p *Process) Kill() error    { return p.Signal(os.Kill) }
func (p *Process) Release() error { return nil }

func (p *Process) Wait() (*os.ProcessState, error) { return nil, syscall.ECHILD }

func SyscallKill(pid int, sig syscall.Signal) error {
	if KillHook != nil {
		return KillHook(pid, sig)
	}
	return syscall.ESRCH
}

func SyscallUmask(m int) int { return 022 }

// Cmd is an external command.
type Cmd struct {
	Path        string
	Args        []string
	Env         []string
	Dir         string
	Stdin       io.Reader
	Stdout      io.Writer
	Stderr      io.Writer
	Process     *Process
	SysProcAttr *syscall.SysProcAttr
}

func ExecCommand(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func (c *Cmd) Start() error {
	if StartHook == nil {
		return os.ErrPermission
	}
	pid, err := StartHook(c)
	if err != nil {
		return err
	}
	c.Process = &Process{Pid: pid}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return nil
}

func (c *Cmd) Wait() error { return nil }

func SignalNotify(c chan<- os.Signal, sig ...os.Signal) {
	if NotifyHook != nil {
		NotifyHook(c, sig)
	}
}
