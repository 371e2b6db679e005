package zzw

import (
	"errors"
	"io"
	"net"
	"net/http"
	"net/netip"
	"os"
	"time"
)

// ErrRefused is what an unreachable peer yields.
var ErrRefused = errors.New("connection refused")

// Datagram is one sent UDP message.
type Datagram struct {
	Data []byte
	To   *net.UDPAddr
}

// UDPConn is a fake UDP socket.
type UDPConn struct {
	Sent   []Datagram
	Closed int
	Read   func(b []byte) (int, *net.UDPAddr, error)
	CloseF func() error
	SendF  func(b []byte, to *net.UDPAddr) // takes what is sent instead of Sent
}

func (c *UDPConn) ReadFromUDP(b []byte) (int, *net.UDPAddr, error) {
	if c.Read == nil {
		select {}
	}
	return c.Read(b)
}

func (c *UDPConn) ReadFrom(b []byte) (int, net.Addr, error) { return c.ReadFromUDP(b) }

func (c *UDPConn) ReadFromUDPAddrPort(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.ReadFromUDP(b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}

func (c *UDPConn) WriteToUDP(b []byte, to *net.UDPAddr) (int, error) {
	if c.SendF != nil {
		c.SendF(b, to)
		return len(b), nil
	}
	c.Sent = append(c.Sent, Datagram{append([]byte{}, b...), to})
	return len(b), nil
}

func (c *UDPConn) WriteTo(b []byte, to net.Addr) (int, error) {
	return c.WriteToUDP(b, to.(*net.UDPAddr))
}

func (c *UDPConn) WriteToUDPAddrPort(b []byte, to netip.AddrPort) (int, error) {
	return c.WriteToUDP(b, net.UDPAddrFromAddrPort(to))
}

func (c *UDPConn) Close() error {
	c.Closed++
	if c.CloseF != nil {
		return c.CloseF()
	}
	return nil
}

func (c *UDPConn) SetDeadline(time.Time) error      { return nil }
func (c *UDPConn) SetReadDeadline(time.Time) error  { return nil }
func (c *UDPConn) SetWriteDeadline(time.Time) error { return nil }
func (c *UDPConn) SetReadBuffer(int) error          { return nil }
func (c *UDPConn) SetWriteBuffer(int) error         { return nil }
func (c *UDPConn) LocalAddr() net.Addr              { return &net.UDPAddr{} }
func (c *UDPConn) RemoteAddr() net.Addr             { return nil }

var (
	ListenUDPHook func(network string, a *net.UDPAddr) (*UDPConn, error)
	ListenHook    func(network, addr string) (net.Listener, error)
	DialHook      func(network, addr string) (net.Conn, error)
	GetHook       func(url string) (*http.Response, error)
	ServeHook     func(s *HTTPServer) error
)

func NetListenUDP(network string, a *net.UDPAddr) (*UDPConn, error) {
	if ListenUDPHook != nil {
		return ListenUDPHook(network, a)
	}
	return nil, ErrRefused
}

func NetListen(network, addr string) (net.Listener, error) {
	if ListenHook != nil {
		return ListenHook(network, addr)
	}
	return nil, ErrRefused
}

func NetDial(network, addr string) (net.Conn, error) {
	if DialHook != nil {
		return DialHook(network, addr)
	}
	return nil, ErrRefused
}

func NetDialTimeout(network, addr string, d time.Duration) (net.Conn, error) {
	return NetDial(network, addr)
}

func HTTPGet(url string) (*http.Response, error) {
	if GetHook != nil {
		return GetHook(url)
	}
	return nil, ErrRefused
}

// ServeMux records handlers; a pattern matches only the identical path, and
// "/" matches every path, as in net/http for patterns without wildcards.
type ServeMux struct {
	H map[string]http.Handler
}

func NewServeMux() *ServeMux { return &ServeMux{H: map[string]http.Handler{}} }

func (m *ServeMux) HandleFunc(p string, f func(http.ResponseWriter, *http.Request)) {
	m.Handle(p, http.HandlerFunc(f))
}

func (m *ServeMux) Handle(p string, h http.Handler) {
	if _, dup := m.H[p]; dup {
		panic("http: multiple registrations for " + p)
	}
	m.H[p] = h
}

// Lookup returns the handler for a path.
func (m *ServeMux) Lookup(path string) http.Handler {
	if h, ok := m.H[path]; ok {
		return h
	}
	for i := len(path) - 1; i >= 0; i-- {
		if path[i] == '/' {
			if h, ok := m.H[path[:i+1]]; ok {
				return h
			}
		}
	}
	return nil
}

func (m *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if h := m.Lookup(r.URL.Path); h != nil {
		h.ServeHTTP(w, r)
		return
	}
	w.WriteHeader(404)
}

type HTTPServer struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	KeepAlives        bool
}

func (s *HTTPServer) SetKeepAlivesEnabled(v bool) { s.KeepAlives = v }
func (s *HTTPServer) ListenAndServe() error {
	if ServeHook != nil {
		return ServeHook(s)
	}
	select {}
}
func HTTPListenAndServe(addr string, h http.Handler) error {
	return (&HTTPServer{Addr: addr, Handler: h, KeepAlives: true}).ListenAndServe()
}
func (s *HTTPServer) Close() error { return nil }

// Conn is a fake stream connection.
type Conn struct {
	In       []byte // returned by one Read
	ReadErr  error
	Out      []byte
	Writes   int
	Closed   int
	ReadN    int
	LateUse  bool // read or written after Close
	Remote   net.Addr
	RDead    time.Time
	WDead    time.Time
	OnClose  func()
	WriteErr error
	StallR   bool // reads and writes take until the deadline
	StallW   bool
}

func (c *Conn) Read(b []byte) (int, error) {
	if c.Closed > 0 {
		c.LateUse = true
		return 0, net.ErrClosed
	}
	c.ReadN++
	if c.StallR {
		if c.RDead.IsZero() {
			select {}
		}
		return 0, os.ErrDeadlineExceeded
	}
	if c.ReadErr != nil {
		return 0, c.ReadErr
	}
	if len(c.In) == 0 {
		return 0, io.EOF
	}
	n := copy(b, c.In)
	c.In = c.In[n:]
	return n, nil
}

func (c *Conn) Write(b []byte) (int, error) {
	if c.Closed > 0 {
		c.LateUse = true
		return 0, net.ErrClosed
	}
	c.Writes++
	if c.StallW {
		if c.WDead.IsZero() {
			select {}
		}
		return 0, os.ErrDeadlineExceeded
	}
	if c.WriteErr != nil {
		return 0, c.WriteErr
	}
	c.Out = append(c.Out, b...)
	return len(b), nil
}

func (c *Conn) Close() error {
	c.Closed++
	if c.OnClose != nil {
		c.OnClose()
	}
	return nil
}
func (c *Conn) LocalAddr() net.Addr  { return &Addr{"127.0.0.1:80"} }
func (c *Conn) RemoteAddr() net.Addr { return c.Remote }
func (c *Conn) SetDeadline(t time.Time) error {
	c.RDead, c.WDead = t, t
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error  { c.RDead = t; return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { c.WDead = t; return nil }

// Addr is a textual network address.
type Addr struct{ S string }

func (a *Addr) Network() string { return "tcp" }
func (a *Addr) String() string  { return a.S }

// Listener hands out a fixed list of connections and then reports that it is
// closed, as net.TCPListener does.
type Listener struct {
	Conns  []net.Conn
	Errs   []error // Errs[i] != nil: the i-th Accept fails
	Next   int
	Closed int
	Block  bool // wait for Close instead of ending after the last connection
	done   chan struct{}
}

func (l *Listener) Accept() (net.Conn, error) {
	i := l.Next
	if i < len(l.Conns) {
		l.Next++
		if i < len(l.Errs) && l.Errs[i] != nil {
			return nil, l.Errs[i]
		}
		return l.Conns[i], nil
	}
	if l.Block {
		if l.done == nil {
			l.done = make(chan struct{})
		}
		<-l.done
	}
	return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
}

func (l *Listener) Close() error {
	l.Closed++
	if l.Block && l.Closed == 1 {
		if l.done == nil {
			l.done = make(chan struct{})
		}
		close(l.done)
	}
	return nil
}

func (l *Listener) Addr() net.Addr { return &Addr{"127.0.0.1:1337"} }
