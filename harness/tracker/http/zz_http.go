package http

import (
	"net"
	"net/netip"
	"strconv"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzIndex is the position of sep in b, or -1.
func zzIndex(b []byte, sep string) int {
	for i := 0; i+len(sep) <= len(b); i++ {
		k := 0
		for k < len(sep) && b[i+k] == sep[k] {
			k++
		}
		if k == len(sep) {
			return i
		}
	}
	return -1
}

func zzHex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// zzUnescape is the percent-decoded text, or false.
func zzUnescape(b []byte) (out []byte, ok bool) {
	for i := 0; i < len(b); i++ {
		if b[i] != '%' {
			out = append(out, b[i])
			continue
		}
		if i+2 >= len(b) || zzHex(b[i+1]) < 0 || zzHex(b[i+2]) < 0 {
			return nil, false
		}
		out = append(out, byte(zzHex(b[i+1])<<4|zzHex(b[i+2])))
		i += 2
	}
	return out, true
}

type zzParsed struct {
	ok     bool // the request is well formed
	lax    bool // it may be rejected all the same
	path   []byte
	params [][]byte // those that are not empty
}

// zzParse is the reference: the request is "GET " target " HTTP/" ..., the
// target "/" path "?" query.
func zzParse(req []byte) (r zzParsed) {
	if len(req) < 5 || zzIndex(req[:5], "GET /") != 0 {
		return
	}
	end := zzIndex(req, " HTTP/")
	if end < 5 {
		return
	}
	target := req[4:end]
	for _, c := range target {
		if c <= ' ' {
			r.lax = true
		}
	}
	r.ok, r.path = true, target
	q := zzIndex(target, "?")
	if q < 0 {
		return
	}
	r.path = target[:q]
	query := target[q+1:]
	if len(query) == 0 || query[len(query)-1] == '&' {
		r.lax = true
	}
	pos, n := 0, 0
	for i := 0; i <= len(query) && n < maxparams; i++ {
		if i < len(query) && query[i] != '&' {
			continue
		}
		v, ok := zzUnescape(query[pos:i])
		if !ok {
			r.ok = false
			return
		}
		if len(v) > 0 {
			r.params = append(r.params, v)
		}
		pos, n = i+1, n+1
	}
	return
}

// ---- a served tracker ----

type zzLn struct {
	ch     chan any // net.Conn or error
	closed int
	late   int // accepts that found the listener closed
}

func (l *zzLn) Accept() (net.Conn, error) {
	v, ok := <-l.ch
	if !ok {
		zzvnd.RaceOff()
		l.late++
		zzvnd.RaceOn()
		if l.late > 50 {
			zzvnd.Fail("workers stop when the listener is closed")
			select {}
		}
		return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
	}
	if err, bad := v.(error); bad {
		return nil, err
	}
	return v.(net.Conn), nil
}

func (l *zzLn) Close() error {
	l.closed++
	if l.closed == 1 {
		close(l.ch)
	}
	return nil
}
func (l *zzLn) Addr() net.Addr { return &zzw.Addr{S: "127.0.0.1:1337"} }

type zzSrv struct {
	c    *config.Configuration
	db   *gomap.Memory
	t    *HTTPTracker
	ln   *zzLn
	now  int64
	done bool // Serve has returned
	err  error
}

// zzServe starts a tracker with an empty database.
func zzServe(configure func(c *config.Configuration)) *zzSrv {
	s := &zzSrv{c: zzh.Setup(), db: gomap.ZZNew(), ln: &zzLn{ch: make(chan any)}, now: zzw.BaseTime}
	zzw.NowHook = func() time.Time { return time.Unix(s.now, 0) }
	if configure != nil {
		configure(s.c)
	}
	zzw.ListenHook = func(network, addr string) (net.Listener, error) {
		zzvnd.Assert(network == "tcp" && addr == "127.0.0.1:1337", "the tracker listens on the configured address")
		return s.ln, nil
	}
	s.t = new(HTTPTracker)
	s.t.Init(s.db)
	go func() {
		s.err = s.t.Serve()
		s.done = true
	}()
	zzvnd.Settle()
	return s
}

// conn is one client connection sending data.
func zzConn(data []byte, remote string) *zzw.Conn {
	return &zzw.Conn{In: data, Remote: &zzw.Addr{S: remote}}
}

// send has the tracker handle one connection.
func (s *zzSrv) send(c *zzw.Conn) {
	s.ln.ch <- c
	zzvnd.Settle()
	zzvnd.Assert(c.Closed == 1, "the connection is closed exactly once")
	zzvnd.Assert(!c.LateUse, "the connection is not used after it is closed")
}

const zzRemote = "10.0.0.1:5000"

// get sends one request and returns the raw reply.
func (s *zzSrv) get(target string) []byte {
	c := zzConn([]byte("GET "+target+" HTTP/1.1\r\nHost: t\r\n\r\n"), zzRemote)
	s.send(c)
	return c.Out
}

// zzBody strips the status line of a successful reply.
func zzBody(out []byte) ([]byte, bool) {
	const head = "HTTP/1.1 200\r\n\r\n"
	if len(out) < len(head) || string(out[:len(head)]) != head {
		return nil, false
	}
	return out[len(head):], true
}

func zzStatus(out []byte, code string) bool {
	return string(out) == "HTTP/1.1 "+code+"\r\n\r\n"
}

// ---- a bencoding reader ----

type zzBen struct {
	kind byte // 's', 'i', 'l', 'd'
	s    []byte
	i    int64
	l    []*zzBen
	k    [][]byte
}

// get returns a dictionary's value.
func (v *zzBen) get(key string) *zzBen {
	if v == nil || v.kind != 'd' {
		return nil
	}
	for i, k := range v.k {
		if string(k) == key {
			return v.l[i]
		}
	}
	return nil
}

func (v *zzBen) keys() (s string) {
	if v == nil || v.kind != 'd' {
		return "-"
	}
	for _, k := range v.k {
		s += string(k) + ","
	}
	return
}

// zzRead reads one value from the start of b.
func zzRead(b []byte) (v *zzBen, rest []byte) {
	if len(b) == 0 {
		return nil, nil
	}
	switch c := b[0]; {
	case c == 'd' || c == 'l':
		v = &zzBen{kind: c}
		b = b[1:]
		for {
			if len(b) == 0 {
				return nil, nil
			}
			if b[0] == 'e' {
				return v, b[1:]
			}
			var x *zzBen
			if c == 'd' {
				if x, b = zzRead(b); x == nil || x.kind != 's' {
					return nil, nil
				}
				v.k = append(v.k, x.s)
			}
			if x, b = zzRead(b); x == nil {
				return nil, nil
			}
			v.l = append(v.l, x)
		}
	case c == 'i':
		v = &zzBen{kind: 'i'}
		i, neg := 1, false
		if len(b) > 1 && b[1] == '-' {
			i, neg = 2, true
		}
		start := i
		for ; i < len(b) && b[i] != 'e'; i++ {
			if b[i] < '0' || b[i] > '9' {
				return nil, nil
			}
			v.i = v.i*10 + int64(b[i]-'0')
		}
		if i == len(b) || i == start || b[start] == '0' && (i > start+1 || neg) {
			return nil, nil
		}
		if neg {
			v.i = -v.i
		}
		return v, b[i+1:]
	case c >= '0' && c <= '9':
		n, i := 0, 0
		for ; i < len(b) && b[i] != ':'; i++ {
			if b[i] < '0' || b[i] > '9' || i > 4 {
				return nil, nil
			}
			n = n*10 + int(b[i]-'0')
		}
		if i == len(b) || b[0] == '0' && i > 1 || len(b)-i-1 < n {
			return nil, nil
		}
		return &zzBen{kind: 's', s: b[i+1 : i+1+n]}, b[i+1+n:]
	}
	return nil, nil
}

// zzReply parses a reply that must be one dictionary.
func zzReply(out []byte) *zzBen {
	b, ok := zzBody(out)
	if !ok {
		zzvnd.Fail("a tracker reply has status 200")
		zzvnd.Assume(false)
	}
	v, rest := zzRead(b)
	if v == nil || v.kind != 'd' || len(rest) != 0 {
		zzvnd.Fail("a tracker reply is one well-formed bencoded dictionary")
		zzvnd.Assume(false)
	}
	return v
}

// zzFailed: the reply holds a failure reason and nothing else.
func zzFailed(v *zzBen) bool {
	r := v.get("failure reason")
	return len(v.k) == 1 && r != nil && r.kind == 's' && len(r.s) > 0
}

// zzPlain is an arbitrary byte string without characters that are special in
// a request line.
func zzPlain(l string, n int) []byte {
	b := zzvnd.Bytes(l, n)
	for _, c := range b {
		zzvnd.Assume(zzvnd.And(c > '&', c != '?'))
	}
	return b
}

func zzSamePeers(a, b []gomap.ZZPeer) bool {
	return len(a) == len(b) && zzh.Injects(len(a), len(b), func(i, j int) bool { return a[i] == b[j] })
}

// zzAddr is an arbitrary client address.
func zzAddr(l string, kinds int) netip.Addr {
	switch zzvnd.Choice(l+"kind", kinds) {
	case 0:
		var b [4]byte
		zzvnd.Fill(l+"ip", b[:])
		return netip.AddrFrom4(b)
	case 1:
		var b [16]byte
		zzvnd.Fill(l+"ip", b[:])
		return netip.AddrFrom16(b)
	}
	b := [16]byte{10: 0xff, 11: 0xff}
	zzvnd.Fill(l+"ip", b[12:])
	return netip.AddrFrom16(b)
}

// zzStore puts up to max arbitrary peers into the database and lists them.
func (s *zzSrv) store(max int) []gomap.ZZPeer {
	n := zzvnd.Choice("stored", max+1)
	for i := 0; i < n; i++ {
		var h storage.Hash
		var id storage.PeerID
		zzvnd.Fill("shash", h[:])
		zzvnd.Fill("sid", id[:])
		s.db.Save(zzAddr("s", 2), zzvnd.U16("speerport"), zzvnd.Bool("scomplete"), h, id)
	}
	return gomap.ZZPeers(s.db)
}

func zzCounts(l []gomap.ZZPeer, h storage.Hash) (c, i int) {
	for _, p := range l {
		if p.Hash == h {
			c += zzvnd.B2I(p.Complete)
			i += zzvnd.B2I(!p.Complete)
		}
	}
	return
}

func zzText(l string, max int) string {
	return zzvnd.Str(l, zzvnd.Choice(l+"len", max+1))
}

// zzAnnounce announces v from ip and checks the reply and the database
// against the stored peers before.
func zzAnnounce(s *zzSrv, v *announceParams, ip netip.Addr, before []gomap.ZZPeer) {
	conn := &zzw.Conn{}
	s.t.announce(conn, v, ip)
	zzChecked(s, v, ip, before, conn)
}

// zzChecked checks what announcing v from ip replied and stored.
func zzChecked(s *zzSrv, v *announceParams, ip netip.Addr, before []gomap.ZZPeer, conn *zzw.Conn) {
	after := gomap.ZZPeers(s.db)
	var h storage.Hash
	var id storage.PeerID
	copy(h[:], v.hash)
	copy(id[:], v.peerid)
	reply := func() *zzBen { return zzReply(conn.Out) }
	if len(v.hash) != 20 || len(v.peerid) != 20 {
		zzvnd.Assert(zzFailed(reply()), "a hash or peer id of another length is refused")
		zzvnd.Assert(zzSamePeers(before, after), "a refused announce stores nothing")
		zzvnd.Reach("badid")
		return
	}
	var want []gomap.ZZPeer
	for _, p := range before {
		if p.Hash == h && p.ID == id {
			continue
		}
		want = append(want, p)
	}
	if v.event == "stopped" {
		zzvnd.Assert(zzSamePeers(want, after), "a stop removes exactly that peer")
		b, ok := zzBody(conn.Out)
		zzvnd.Assert(ok, "a stop is acknowledged")
		if ok && len(b) > 0 {
			r := reply()
			zzvnd.Assert(r.get("failure reason") == nil, "a stop is acknowledged")
		}
		zzvnd.Reach("stopped")
		return
	}
	port, err := strconv.Atoi(v.port)
	if err != nil || port < 1 || port > 65535 {
		zzvnd.Assert(zzFailed(reply()), "a port that is not 1-65535 is refused")
		zzvnd.Assert(zzSamePeers(before, after), "a refused announce stores nothing")
		zzvnd.Reach("badport")
		return
	}
	max := int(s.c.Numwant.Default)
	if v.numwant != "" {
		n, err := strconv.Atoi(v.numwant)
		if err != nil || n < 0 {
			zzvnd.Assert(zzFailed(reply()), "a number wanted that is not a non-negative integer is refused")
			zzvnd.Assert(zzSamePeers(before, after), "a refused announce stores nothing")
			zzvnd.Reach("badnumwant")
			return
		}
		max = int(s.c.Numwant.Limit)
		if n < max {
			max = n
		}
	}
	complete := v.event == "completed" || v.noneleft
	want = append(want, gomap.ZZPeer{Hash: h, ID: id, IP: ip, Port: uint16(port), Complete: complete, Seen: s.now})
	zzvnd.Assert(zzSamePeers(want, after), "an announce stores exactly the announced peer")
	r := reply()
	c, i := zzCounts(want, h)
	rc, ri := r.get("complete"), r.get("incomplete")
	zzvnd.Assert(rc != nil && ri != nil, "an announce reply has counts")
	if rc == nil || ri == nil {
		return
	}
	zzvnd.Assert(rc.kind == 'i' && int(rc.i) == c, "the reply reports the complete peers after the update")
	zzvnd.Assert(ri.kind == 'i' && int(ri.i) == i, "the reply reports the incomplete peers after the update")
	zzListed(s, v, r, max, want, h)
	zzvnd.Reach("stored")
}

// zzListed checks the listed peers.
func zzListed(s *zzSrv, v *announceParams, r *zzBen, max int, want []gomap.ZZPeer, h storage.Hash) {
	var swarm []gomap.ZZPeer
	for _, p := range want {
		if p.Hash == h {
			swarm = append(swarm, p)
		}
	}
	peers := r.get("peers")
	if peers == nil {
		zzvnd.Fail("an announce reply has peers")
		return
	}
	n := 0
	if v.compact {
		p6 := r.get("peers6")
		if peers.kind != 's' || p6 == nil || p6.kind != 's' || len(peers.s)%6 != 0 || len(p6.s)%18 != 0 {
			zzvnd.Fail("compact peers are two strings of whole entries")
			return
		}
		n = len(peers.s)/6 + len(p6.s)/18
		zzvnd.Assert(zzPeerBytes(peers.s, 6, swarm), "compact IPv4 peers are peers of the swarm, each once")
		zzvnd.Assert(zzPeerBytes(p6.s, 18, swarm), "compact IPv6 peers are peers of the swarm, each once")
	} else {
		if peers.kind != 'l' {
			zzvnd.Fail("peers are a list")
			return
		}
		n = len(peers.l)
		zzvnd.Assert(zzPeerDicts(peers.l, v.nopeerid, swarm), "listed peers are peers of the swarm, each once")
	}
	if len(swarm) < max {
		max = len(swarm)
	}
	zzvnd.Assert(n == max, "the reply lists as many peers as wanted, allowed and known")
}

func zzPeerBytes(list []byte, size int, swarm []gomap.ZZPeer) bool {
	return zzh.Injects(len(list)/size, len(swarm), func(i, j int) bool {
		e, ip := list[i*size:(i+1)*size], swarm[j].IP.AsSlice()
		if len(ip) != size-2 {
			return false
		}
		return zzvnd.And(zzvnd.EqBytes(e[:size-2], ip), uint16(e[size-2])<<8|uint16(e[size-1]) == swarm[j].Port)
	})
}

func zzPeerDicts(list []*zzBen, nopeerid bool, swarm []gomap.ZZPeer) bool {
	var ds []*zzBen
	for _, e := range list {
		if e.kind == 's' {
			v, rest := zzRead(e.s)
			if v == nil || len(rest) != 0 {
				return false
			}
			e = v
		}
		n := 3
		if nopeerid {
			n = 2
		}
		ip, port := e.get("ip"), e.get("port")
		if e.kind != 'd' || len(e.k) != n || ip == nil || port == nil || ip.kind != 's' || port.kind != 'i' {
			return false
		}
		if id := e.get("peer id"); !nopeerid && (id == nil || id.kind != 's' || len(id.s) != 20) {
			return false
		}
		ds = append(ds, e)
	}
	return zzh.Injects(len(ds), len(swarm), func(i, j int) bool {
		d, p := ds[i], swarm[j]
		ok := zzvnd.And(zzvnd.EqStr(string(d.get("ip").s), p.IP.String()), d.get("port").i == int64(p.Port))
		if !nopeerid {
			ok = zzvnd.And(ok, zzvnd.EqBytes(d.get("peer id").s, p.ID[:]))
		}
		return ok
	})
}
