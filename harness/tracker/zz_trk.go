package tracker

import (
	"errors"
	"net"
	"net/netip"
	"os"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

var zzErr = errors.New("injected")

const (
	zzDB    = "/data/trakx.db"
	zzConns = "/cache/conn.db"
)

type zzDgram struct {
	data []byte
	from *net.UDPAddr
}

type zzLn struct {
	ch     chan net.Conn
	closed int
}

func (l *zzLn) Accept() (net.Conn, error) {
	c, ok := <-l.ch
	if !ok {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	return c, nil
}
func (l *zzLn) Close() error {
	if l.closed++; l.closed == 1 {
		close(l.ch)
	}
	return nil
}
func (l *zzLn) Addr() net.Addr { return &zzw.Addr{S: "127.0.0.1:1337"} }

// zzFailListen makes listening for UDP, HTTP fail.
var zzFailListen [2]bool

// zzTrk is one run of the whole tracker on a machine.
type zzTrk struct {
	c     *config.Configuration
	fs    *zzw.FSys
	sock  *zzw.UDPConn
	ln    *zzLn
	udp   chan zzDgram
	sig   chan<- os.Signal
	exits []int
}

// zzBoot starts the tracker on the given file system as a new process.
func zzBoot(fs *zzw.FSys, configure func(c *config.Configuration)) *zzTrk {
	return zzBootOn(fs, configure, func(*net.UDPAddr) {}, func(string, string) {})
}

// zzBootOn is zzBoot; onUDP and onTCP learn what the tracker listens on.
func zzBootOn(fs *zzw.FSys, configure func(c *config.Configuration), onUDP func(*net.UDPAddr), onTCP func(network, addr string)) *zzTrk {
	t := &zzTrk{c: zzh.Setup(), fs: fs, sock: &zzw.UDPConn{}, ln: &zzLn{ch: make(chan net.Conn)}, udp: make(chan zzDgram)}
	config.ZZLoaded(t.c)
	pools.Dictionaries, pools.Peerlists4, pools.Peerlists6, pools.Peers = nil, nil, nil, nil
	stats.ZZReset()
	zzw.NowHook = func() time.Time { return time.Unix(zzw.BaseTime, 0) }
	if configure != nil {
		configure(t.c)
	}
	zzw.FS = fs
	t.sock.Read = func(b []byte) (int, *net.UDPAddr, error) {
		d, ok := <-t.udp
		if !ok {
			return 0, nil, &net.OpError{Op: "read", Net: "udp", Err: net.ErrClosed}
		}
		return copy(b, d.data), d.from, nil
	}
	t.sock.CloseF = func() error { close(t.udp); return nil }
	zzw.ListenUDPHook = func(_ string, a *net.UDPAddr) (*zzw.UDPConn, error) {
		onUDP(a)
		if zzFailListen[0] {
			return nil, zzErr
		}
		return t.sock, nil
	}
	zzw.ListenHook = func(network, addr string) (net.Listener, error) {
		onTCP(network, addr)
		if zzFailListen[1] {
			return nil, zzErr
		}
		return t.ln, nil
	}
	zzw.NotifyHook = func(c chan<- os.Signal, sig []os.Signal) {
		for _, want := range []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1} {
			have := false
			for _, s := range sig {
				have = have || s == want
			}
			zzvnd.Assert(have, "the tracker asks for its signals")
		}
		t.sig = c
	}
	zzw.ExitHook = func(code int) {
		t.exits = append(t.exits, code)
		select {}
	}
	go Run()
	zzvnd.Settle()
	return t
}

func (t *zzTrk) signal(s os.Signal) {
	if t.sig == nil {
		zzvnd.Fail("the tracker listens for signals")
		zzvnd.Assume(false)
	}
	t.sig <- s
	zzvnd.Settle()
}

// announce sends a UDP announce and returns the reply.
func (t *zzTrk) ask(data []byte, from netip.AddrPort) []byte {
	n := len(t.sock.Sent)
	t.udp <- zzDgram{data, net.UDPAddrFromAddrPort(from)}
	zzvnd.Settle()
	if len(t.sock.Sent) != n+1 {
		zzvnd.Fail("a request gets one reply")
		zzvnd.Assume(false)
	}
	return t.sock.Sent[n].Data
}

func zzAnnounce(id []byte, hash []byte, peer byte, port uint16, left byte) []byte {
	b := make([]byte, 98)
	copy(b, id)
	b[11], b[15] = 1, 7
	copy(b[16:36], hash)
	b[36] = peer
	b[71] = left
	b[95] = 3 // numwant
	b[96], b[97] = byte(port>>8), byte(port)
	return b
}

// connect performs a UDP connect and returns the connection id.
func (t *zzTrk) connect(from netip.AddrPort) []byte {
	b := make([]byte, 16)
	b[2], b[3], b[4], b[5], b[6], b[7] = 4, 0x17, 0x27, 0x10, 0x19, 0x80
	r := t.ask(b, from)
	if len(r) != 16 {
		zzvnd.Fail("a connect is answered")
		zzvnd.Assume(false)
	}
	return r[8:]
}

// counts is the scraped seeders and leechers.
func (t *zzTrk) counts(hash []byte, from netip.AddrPort) (s, l int) {
	b := make([]byte, 36)
	copy(b, t.connect(from))
	b[11] = 2
	copy(b[16:], hash)
	r := t.ask(b, from)
	if len(r) != 20 {
		zzvnd.Fail("a scrape is answered")
		zzvnd.Assume(false)
	}
	return int(r[11]), int(r[19])
}

// get has the HTTP tracker handle one request.
func (t *zzTrk) get(target string) []byte {
	c := &zzw.Conn{In: []byte("GET " + target + " HTTP/1.1\r\n\r\n"), Remote: &zzw.Addr{S: "10.0.0.1:999"}}
	t.ln.ch <- c
	zzvnd.Settle()
	return c.Out
}

// zzOpened records what the tracker listens on.
type zzOpened struct {
	udp, tcp []string
	web      []*zzw.HTTPServer
}

func zzItoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return zzItoa(n/10) + string(rune('0'+n%10))
}

// zzBootWith starts the tracker and notes what it opens.
func zzBootWith(fs *zzw.FSys, o *zzOpened, configure func(c *config.Configuration)) *zzTrk {
	zzw.ServeHook = func(s *zzw.HTTPServer) error {
		o.web = append(o.web, s)
		select {}
	}
	var t *zzTrk
	t = zzBootOn(fs, configure, func(a *net.UDPAddr) {
		o.udp = append(o.udp, a.IP.String()+" "+zzItoa(a.Port))
	}, func(network, addr string) {
		zzvnd.Assert(network == "tcp" || network == "tcp4", "the HTTP tracker listens on TCP")
		o.tcp = append(o.tcp, addr)
	})
	return t
}
