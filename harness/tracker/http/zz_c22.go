package http

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// zzAnswers checks that out answers req.
func zzAnswers(req, out []byte) {
	r := zzParse(req)
	get := string(r.path)
	if len(req) >= 4 && string(req[:4]) == "R0VU" {
		r.lax = true // base64: only that there is an answer
	}
	switch {
	case !r.ok && !r.lax:
		zzvnd.Assert(zzStatus(out, "400"), "a malformed request or one that is not GET gets 400")
		zzvnd.Reach("bad")
	case zzStatus(out, "400") && r.lax, len(out) > 0 && !r.ok:
	case get == "/heartbeat":
		zzvnd.Assert(zzStatus(out, "200"), "/heartbeat gets 200")
		zzvnd.Reach("heartbeat")
	case get == "/stats":
		const head = "HTTP/1.1 200\r\n"
		ok := len(out) > len(head)+len(zzw.StatsBody) && string(out[:len(head)]) == head
		zzvnd.Assert(ok && string(out[len(out)-len(zzw.StatsBody):]) == string(zzw.StatsBody), "/stats gets the statistics")
	case get == "/announce", get == "/scrape":
		zzvnd.Assert(zzFailed(zzReply(out)), "an announce or scrape without parameters gets a failure reason")
	case get == "/" || get == "/index.html":
		zzvnd.Assert(len(out) > 20 && !zzStatus(out, "404"), "the index page is served")
	case get == "/dmca.html":
		zzvnd.Assert(len(out) > 20 && !zzStatus(out, "404"), "files are served")
	default:
		zzvnd.Assert(zzStatus(out, "404"), "an unknown path gets 404")
		zzvnd.Reach("unknown")
	}
}

//verif:prop=C22 time=300 reach=bad,unknown bounds="one connection sending GET /, POST /, get / or nothing, then 0..4 (thorough 6) arbitrary bytes, then the rest of a request line or nothing; then a second client asking for /heartbeat"
func VC22Any() {
	s := zzServe(nil)
	req := []byte(zzOf22("prefix", "", "GET /", "POST /", "get /", "GET ", "R0VU"))
	req = append(req, zzvnd.Bytes("any", zzvnd.Choice("len", zzvnd.Bound(4, 6)+1))...)
	req = append(req, zzOf22("suffix", "", " HTTP/1.1\r\n\r\n", " HTTP/")...)
	c := zzConn(append([]byte(nil), req...), zzRemote)
	s.send(c)
	if len(req) == 0 {
		zzvnd.Assert(len(c.Out) == 0, "a client that sent nothing is not answered")
	} else {
		zzvnd.Assert(len(c.Out) > 0, "a request is answered")
		zzAnswers(req, c.Out)
	}
	zzvnd.Assert(zzStatus(s.get("/heartbeat"), "200"), "the next client is served")
	zzvnd.Assert(len(gomap.ZZPeers(s.db)) == 0, "nothing is stored")
}

func zzOf22(l string, texts ...string) string { return texts[zzvnd.Choice(l, len(texts))] }

//verif:prop=C22 time=300 reach=unknown,heartbeat bounds="a GET of an arbitrary path of 0..11 (thorough 24) plain characters, or of one of the names of the configuration, with or without a query; then the same request again and a /heartbeat"
func VC22Path() {
	s := zzServe(nil)
	path := "/"
	if k := zzvnd.Choice("kind", 3); k == 0 {
		path += string(zzPlain("path", zzvnd.Choice("len", zzvnd.Bound(12, 25))))
	} else if k == 1 {
		path = zzOf22("config", "/trakx.yaml", "/embedded/trakx.yaml", "//trakx.yaml", "/../embedded/trakx.yaml", "/config/trakx.yaml", "/./trakx.yaml", "/%74rakx.yaml", "/heartbeat", "/stats", "/announce", "/scrape", "/dmca.html")
	} else {
		path = zzOf22("special", "/heartbeat", "/trakx.yaml", "/stats")
		s.get("/nothing-at-all")
	}
	target := path
	if zzvnd.Choice("query", 2) == 1 {
		target += "?x=" + string(zzPlain("q", 1))
	}
	for i := 0; i < 2; i++ {
		zzAnswers([]byte("GET "+target+" HTTP/1.1\r\n\r\n"), s.get(target))
	}
	zzvnd.Assert(zzStatus(s.get("/heartbeat"), "200"), "the next client is served")
}

//verif:prop=C22 time=300 reach=done bounds="three clients in a row, each: unreadable, closing at once, never sending, never reading, a request of more bytes than the buffer, failing on write, a failed accept, or a heartbeat; then the tracker is shut down; 1 or 2 workers"
func VC22Faults() {
	s := zzServe(func(c *config.Configuration) { c.HTTP.Threads = zzvnd.Choice("threads", 2) + 1 })
	for i := 0; i < 3; i++ {
		switch zzvnd.Choice("client", 8) {
		case 0:
			c := zzConn([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"), zzRemote)
			c.ReadErr = zzOfErr("readerr")
			s.send(c)
			zzvnd.Assert(len(c.Out) == 0, "an unreadable request is not answered")
		case 1:
			c := zzConn(nil, zzRemote)
			s.send(c)
			zzvnd.Assert(len(c.Out) == 0, "a client that sent nothing is not answered")
		case 2:
			c := zzConn(make([]byte, httpRequestMax+10), zzRemote)
			s.send(c)
			zzvnd.Assert(zzStatus(c.Out, "400"), "an oversized malformed request gets 400")
		case 3:
			c := zzConn([]byte("GET /"+zzOf22("what", "heartbeat", "stats", "announce?", "x")+" HTTP/1.1\r\n\r\n"), zzRemote)
			c.WriteErr = io.ErrClosedPipe
			s.send(c)
		case 4:
			s.ln.ch <- zzOfErr("accepterr")
			zzvnd.Settle()
		case 5:
			zzvnd.Assert(zzStatus(s.get("/heartbeat"), "200"), "a client is served whatever happened before")
		case 6:
			c := zzConn(nil, zzRemote)
			c.StallR = true
			s.send(c)
			zzvnd.Assert(len(c.Out) == 0, "a client that sends nothing is not answered")
		case 7:
			c := zzConn([]byte("GET /heartbeat HTTP/1.1\r\n\r\n"), zzRemote)
			c.StallW = true
			s.send(c)
		}
	}
	zzvnd.Assert(zzStatus(s.get("/heartbeat"), "200"), "a client is served whatever happened before")
	s.t.Shutdown()
	zzvnd.Settle()
	zzvnd.Assert(s.done && s.err == nil && s.ln.closed == 1, "a shutdown closes the listener and ends serving")
	zzvnd.Assert(s.ln.late <= s.c.HTTP.Threads, "workers stop when the listener is closed")
	zzvnd.Assert(s.ln.late == s.c.HTTP.Threads, "every worker notices that the listener is closed")
	zzvnd.Reach("done")
}

func zzOfErr(l string) error {
	switch zzvnd.Choice(l, 3) {
	case 0:
		return errors.New("reset by peer")
	case 1:
		return io.EOF
	}
	return &net.OpError{Op: "accept", Net: "tcp", Err: errors.New("too many open files")}
}

//verif:prop=C22 time=300 conc=100000 reach=done bounds="two clients served at the same time by a tracker with two workers (heartbeat, stats, unknown path, bad request, compact announce, scrape), every interleaving at lock, channel and pool operations with up to 1 (thorough 2) preemptions"
func VC22Workers() {
	zzvnd.Flag("pools", 1)
	zzvnd.Flag("preempt", zzvnd.Bound(1, 2))
	c := zzh.Setup()
	c.HTTP.Threads = 2
	zzw.NowHook = func() time.Time { return time.Unix(zzw.BaseTime, 0) }
	db := gomap.ZZNew()
	reqs := []string{"GET /heartbeat HTTP/1.1\r\n\r\n", "GET /stats HTTP/1.1\r\n\r\n", "GET /unknown HTTP/1.1\r\n\r\n", "bad\r\n\r\n", "GET /scrape?info_hash=aaaaaaaaaaaaaaaaaaaa HTTP/1.1\r\n\r\n", "GET /announce?compact=1&info_hash=aaaaaaaaaaaaaaaaaaaa&peer_id=aaaaaaaaaaaaaaaaaaaa&port=80 HTTP/1.1\r\n\r\n"}
	kinds := [2]int{zzvnd.Choice("a", len(reqs)), zzvnd.Choice("b", len(reqs))}
	ln, closed := &zzLn{ch: make(chan any, 2)}, make(chan struct{}, 4)
	var conns [2]*zzw.Conn
	for i, k := range kinds {
		conns[i] = zzConn([]byte(reqs[k]), "10.0.0."+string(rune('1'+i))+":1")
		conns[i].OnClose = func() { closed <- struct{}{} }
		ln.ch <- conns[i]
	}
	zzw.ListenHook = func(string, string) (net.Listener, error) { return ln, nil }
	t := &HTTPTracker{}
	t.Init(db)
	zzvnd.Par(func() { t.Serve() }, func() {
		<-closed
		<-closed
		t.Shutdown()
	})
	zzvnd.Settle()
	n := 0
	for i, c := range conns {
		zzvnd.Assert(c.Closed == 1 && !c.LateUse, "each connection is closed exactly once")
		switch kinds[i] {
		case 4:
			zzvnd.Assert(zzReply(c.Out).get("files") != nil, "each client gets its own answer")
		case 5:
			n = 1
			zzvnd.Assert(zzReply(c.Out).get("peers") != nil, "each client gets its own answer")
		default:
			zzAnswers([]byte(reqs[kinds[i]]), c.Out)
		}
	}
	l := gomap.ZZPeers(db)
	zzvnd.Assert(len(l) == n && (n == 0 || l[0].Hash == *(*storage.Hash)([]byte("aaaaaaaaaaaaaaaaaaaa"))), "only announces are stored")
	zzvnd.Reach("done")
}
