package zzw

import (
	"context"
	"io"
	"math/big"
	"net"
	"net/http"
	"net/netip"
	"net/url"
	"os"
	"strings"
	"time"

	"github.com/crimist/trakx/zzvnd"
)

// ---- timers ----
//
// Without a SleepHook no clock runs and a timer never fires. With one, the
// time until the timer fires passes when it is made.

// TimeAfter models time.After.
func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

// Timer models time.Timer.
type Timer struct {
	C     <-chan time.Time
	c     chan time.Time
	f     func()
	fired bool
	ended bool
}

func (t *Timer) start(d time.Duration) {
	t.fired, t.ended = false, false
	if SleepHook == nil {
		return
	}
	if t.f != nil {
		go func() {
			SleepHook(d)
			if !t.ended {
				t.fired = true
				t.f()
			}
		}()
		return
	}
	SleepHook(d)
	t.fired = true
	t.c <- TimeNow()
}

func TimeNewTimer(d time.Duration) *Timer {
	t := &Timer{c: make(chan time.Time, 1)}
	t.C = t.c
	t.start(d)
	return t
}

func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	was := !t.fired && !t.ended
	t.ended = true
	for t.c != nil && len(t.c) > 0 {
		<-t.c
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.start(d)
	return was
}

// Ticker models time.Ticker; it never ticks.
type Ticker struct{ C <-chan time.Time }

func TimeNewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	if SleepHook != nil {
		zzvnd.Unsupported("tickers while time passes")
	}
	return &Ticker{C: make(chan time.Time)}
}

func (t *Ticker) Stop()                 {}
func (t *Ticker) Reset(d time.Duration) {}

func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

// ---- randomness ----

// Rand models rand.Rand; every generator draws from RandHook.
type Rand struct{}
type RandSource struct{}

func RandNewSource(int64) RandSource    { return RandSource{} }
func RandNewPCG(a, b uint64) RandSource { return RandSource{} }
func RandNew(RandSource) *Rand          { return &Rand{} }
func (*Rand) Int31n(n int32) int32      { return RandInt31n(n) }
func (*Rand) Int63n(n int64) int64      { return RandInt63n(n) }
func (*Rand) Intn(n int) int            { return RandIntn(n) }
func (*Rand) Int32N(n int32) int32      { return RandInt31n(n) }
func (*Rand) Int64N(n int64) int64      { return RandInt63n(n) }
func (*Rand) IntN(n int) int            { return RandIntn(n) }
func (*Rand) Int63() int64              { return RandInt63() }
func (*Rand) Int64() int64              { return RandInt63() }
func (*Rand) Int31() int32              { return RandInt31() }
func (*Rand) Int32() int32              { return RandInt31() }
func (*Rand) Int() int                  { return RandInt() }
func (*Rand) Uint32() uint32            { return RandUint32() }
func (*Rand) Uint64() uint64            { return RandUint64() }
func (*Rand) Seed(int64)                {}
func RandUint32N(n uint32) uint32       { return uint32(RandInt63n(int64(n))) }
func CryptoRead(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(draw(256))
	}
	return len(b), nil
}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) { return CryptoRead(b) }

// CryptoReader models crypto/rand.Reader.
var CryptoReader io.Reader = cryptoReader{}

func CryptoInt(_ io.Reader, max *big.Int) (*big.Int, error) {
	if !max.IsInt64() {
		zzvnd.Unsupported("random numbers above 63 bits")
	}
	return big.NewInt(RandInt63n(max.Int64())), nil
}

// ---- network ----

func (c *UDPConn) ReadMsgUDP(b, oob []byte) (n, oobn, flags int, addr *net.UDPAddr, err error) {
	n, addr, err = c.ReadFromUDP(b)
	return
}

func (c *UDPConn) ReadMsgUDPAddrPort(b, oob []byte) (n, oobn, flags int, addr netip.AddrPort, err error) {
	n, addr, err = c.ReadFromUDPAddrPort(b)
	return
}

func (c *UDPConn) WriteMsgUDP(b, oob []byte, addr *net.UDPAddr) (n, oobn int, err error) {
	n, err = c.WriteToUDP(b, addr)
	return
}

func (c *UDPConn) WriteMsgUDPAddrPort(b, oob []byte, addr netip.AddrPort) (n, oobn int, err error) {
	n, err = c.WriteToUDPAddrPort(b, addr)
	return
}

func netResolveUDP(network, addr string) (*net.UDPAddr, error) {
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, err
	}
	n := 0
	for i := 0; i < len(port); i++ {
		if port[i] < '0' || port[i] > '9' {
			return nil, &net.AddrError{Err: "invalid port", Addr: port}
		}
		n = n*10 + int(port[i]-'0')
	}
	return &net.UDPAddr{IP: net.ParseIP(host), Port: n}, nil
}

func NetResolveUDPAddr(network, addr string) (*net.UDPAddr, error) {
	return netResolveUDP(network, addr)
}

func NetListenPacket(network, addr string) (net.PacketConn, error) {
	a, err := netResolveUDP(network, addr)
	if err != nil {
		return nil, err
	}
	c, err := NetListenUDP(network, a)
	if err != nil {
		return nil, err
	}
	return c, nil
}

// ListenConfig models net.ListenConfig.
type ListenConfig struct {
	KeepAlive time.Duration
}

func (*ListenConfig) Listen(_ context.Context, network, addr string) (net.Listener, error) {
	return NetListen(network, addr)
}

func (*ListenConfig) ListenPacket(_ context.Context, network, addr string) (net.PacketConn, error) {
	return NetListenPacket(network, addr)
}

// Dialer models net.Dialer.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
}

func (*Dialer) Dial(network, addr string) (net.Conn, error) { return NetDial(network, addr) }
func (*Dialer) DialContext(_ context.Context, network, addr string) (net.Conn, error) {
	return NetDial(network, addr)
}

// HTTPClient models http.Client.
type HTTPClient struct {
	Timeout       time.Duration
	Transport     http.RoundTripper
	CheckRedirect func(*http.Request, []*http.Request) error
}

var HTTPDefaultClient = &HTTPClient{}

func (*HTTPClient) Get(url string) (*http.Response, error) { return HTTPGet(url) }
func (*HTTPClient) Do(r *http.Request) (*http.Response, error) {
	if r.Method != "GET" && r.Method != "" {
		zzvnd.Unsupported("requests other than GET")
	}
	return HTTPGet(r.URL.String())
}
func (*HTTPClient) CloseIdleConnections() {}

// HTTPNewRequest models http.NewRequest.
func HTTPNewRequest(method, addr string, body io.Reader) (*http.Request, error) {
	scheme, rest, ok := strings.Cut(addr, "://")
	host, path, _ := strings.Cut(rest, "/")
	if !ok {
		return nil, &url.Error{Op: "parse", URL: addr, Err: os.ErrInvalid}
	}
	return &http.Request{Method: method, URL: &url.URL{Scheme: scheme, Host: host, Path: "/" + path}, Host: host, Header: http.Header{}}, nil
}

func (s *HTTPServer) Serve(net.Listener) error       { return s.ListenAndServe() }
func (s *HTTPServer) Shutdown(context.Context) error { return nil }

// ---- files and processes ----

func OsLstat(path string) (os.FileInfo, error) { return OsStat(path) }
func OsGetpid() int                            { return 4242 }
func OsExpandEnv(s string) string              { return os.Expand(s, OsGetenv) }
func OsSetenv(k, v string) error {
	if Env == nil {
		Env = map[string]string{}
	}
	Env[k] = v
	return nil
}
func OsUnsetenv(k string) error { delete(Env, k); return nil }

func ExecCommandContext(_ context.Context, name string, arg ...string) *Cmd {
	return ExecCommand(name, arg...)
}

func SignalStop(c chan<- os.Signal) {}
func SignalIgnore(sig ...os.Signal) {}
func SignalReset(sig ...os.Signal)  {}
