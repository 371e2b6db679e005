package http

import (
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C31 time=200 reach=announce,failure,scrape,other bounds="three requests in a row: announces (well formed, a stop, with a port of 2 arbitrary characters, with an id of 19 bytes), scrapes (of no, one and a bad hash), other paths, malformed and silent clients"
func VC31HTTP() {
	s := zzServe(nil)
	const ok = "/announce?info_hash=aaaaaaaaaaaaaaaaaaaa&peer_id=bbbbbbbbbbbbbbbbbbbb"
	for i := 0; i < 3; i++ {
		h, a, sc, bad := stats.Hits.Load(), stats.Announces.Load(), stats.Scrapes.Load(), stats.ClientErrors.Load()
		kind := zzvnd.Choice("kind", 10)
		var out []byte
		switch kind {
		case 0:
			out = s.get(ok + "&port=80&compact=1")
		case 1:
			out = s.get(ok + "&port=80&event=stopped")
		case 2:
			out = s.get(ok + "&port=" + string(zzPlain("port", 2)))
		case 3:
			out = s.get(ok[:len(ok)-1] + "&port=80")
		case 4:
			out = s.get("/scrape?info_hash=aaaaaaaaaaaaaaaaaaaa")
		case 5:
			out = s.get("/scrape?x=y")
		case 6:
			out = s.get("/scrape?info_hash=aa")
		case 7:
			out = s.get([]string{"/", "/heartbeat", "/stats", "/x", "/announc"}[zzvnd.Choice("path", 5)])
		case 8:
			c := zzConn([]byte("POST / HTTP/1.1\r\n\r\n"), zzRemote)
			s.send(c)
			out = c.Out
		case 9:
			c := zzConn(nil, zzRemote)
			c.StallR = true
			s.send(c)
		}
		h, a, sc, bad = stats.Hits.Load()-h, stats.Announces.Load()-a, stats.Scrapes.Load()-sc, stats.ClientErrors.Load()-bad
		if kind == 9 {
			zzvnd.Assert(h == 0 && a == 0 && sc == 0, "what is no request is not counted")
			continue
		}
		zzvnd.Assert(h == 1, "a request is counted once")
		zzvnd.Assert(a == 0 || a == 1 && kind <= 3, "an announce is counted at most once, and nothing else as one")
		zzvnd.Assert(sc == 0 || sc == 1 && kind >= 4 && kind <= 6, "a scrape is counted at most once, and nothing else as one")
		body, good := zzBody(out)
		if !good {
			continue
		}
		if kind > 6 {
			zzvnd.Reach("other")
			continue
		}
		failed := false
		if len(body) > 0 {
			failed = zzFailed(zzReply(out))
		}
		switch {
		case failed:
			zzvnd.Assert(bad == 1, "a refused request is counted once as an error")
			zzvnd.Reach("failure")
		case kind <= 3:
			zzvnd.Assert(a == 1 && bad == 0, "an answered announce is counted once")
			zzvnd.Reach("announce")
		default:
			zzvnd.Assert(sc == 1 && bad == 0, "an answered scrape is counted once")
			zzvnd.Reach("scrape")
		}
	}
	_ = zzw.BaseTime
}
