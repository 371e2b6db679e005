//go:build heroku

package http

import (
	"net/netip"

	"github.com/crimist/trakx/tracker/storage"
	gomap "github.com/crimist/trakx/tracker/storage/map"
	"github.com/crimist/trakx/zzvnd"
)

// zzLast is the last list entry of a header value, without one leading space.
func zzLast(v []byte) []byte {
	for i := len(v) - 1; i >= 0; i-- {
		if v[i] == ',' {
			v = v[i+1:]
			if len(v) > 0 && v[0] == ' ' {
				v = v[1:]
			}
			return v
		}
	}
	return v
}

//verif:prop=C23 tags=heroku time=300 reach=absent,unterminated,value bounds="any request of 0..4 arbitrary bytes, then the header or not, then 0..7 (thorough 10) arbitrary bytes"
func VC23Extract() {
	data := zzvnd.Bytes("head", zzvnd.Choice("headlen", 5))
	key := "X-Forwarded-For: "
	have := zzvnd.Choice("have", 2) == 1
	if have {
		data = append(data, key...)
	}
	tail := zzvnd.Bytes("tail", zzvnd.Choice("len", zzvnd.Bound(8, 11)))
	data = append(data, tail...)
	forwarded, ip := parseForwarded(data)
	if !have {
		zzvnd.Assert(!forwarded, "a request without the header is not forwarded")
		zzvnd.Reach("absent")
		return
	}
	zzvnd.Assert(forwarded, "a request with the header is forwarded")
	end := zzIndex(tail, "\r\n")
	if end < 0 {
		zzvnd.Assert(len(ip) == 0, "an unterminated header yields no address")
		zzvnd.Reach("unterminated")
		return
	}
	want := zzLast(tail[:end])
	if len(want) > 0 && want[0] == ' ' {
		return // more than one space
	}
	zzvnd.Assert(zzvnd.EqBytes(ip, want), "the address is the last list entry")
	zzvnd.Reach("value")
}

//verif:prop=C23 tags=heroku time=300 reach=stored,refused bounds="announces through the served tracker with a forwarded header of one of 16 forms with arbitrary digits, or without one, after an earlier longer request with or without the header; IPv4 and IPv6 connections"
func VC23Request() {
	s := zzServe(nil)
	remote := []string{"10.0.0.1:5000", "[2001:db8::1]:50"}[zzvnd.Choice("remote", 2)]
	const tail = "\r\nUser-Agent: abcdefghijklmnopqrstuvwxyz\r\n\r\n"
	if k := zzvnd.Choice("earlier", 3); k > 0 {
		r := "GET /heartbeat?aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa HTTP/1.1\r\nHost: bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb\r\n"
		if k == 2 {
			r += "X-Forwarded-For: 9.9.9.9\r\n\r\n"
		}
		s.send(zzConn([]byte(r), remote))
	}
	req := "GET /announce?info_hash=aaaaaaaaaaaaaaaaaaaa&peer_id=bbbbbbbbbbbbbbbbbbbb&port=80 HTTP/1.1\r\nHost: t\r\n"
	d := zzvnd.Str("digit", 1)
	zzvnd.Assume(zzvnd.And(d[0] >= '0', d[0] <= '9'))
	kind := zzvnd.Choice("form", 16)
	v := []string{"", "1.2.3." + d, "5.5.5.5, 1.2.3." + d, "5.5.5.5,1.2.3." + d, "junk,6.6.6.6, 2001:db8::" + d, "2001:db8::" + d, "1.2.3.4,", "1.2.3.4, ", ",", "junk", "1.2.3.4:80", ", 1.2.3." + d, ",1.2.3." + d, " ", "1.2.3.", "1.2.3.4, junk"}[kind]
	addr := []string{"", "1.2.3." + d, "1.2.3." + d, "1.2.3." + d, "2001:db8::" + d, "2001:db8::" + d, "", "", "", "", "", "1.2.3." + d, "1.2.3." + d, "", "", ""}[kind]
	mode := zzvnd.Choice("mode", 3)
	switch mode {
	case 0: // no header
		req += tail[2:]
		addr = "10.0.0.1"
		if remote[0] == '[' {
			addr = "2001:db8::1"
		}
	case 1:
		req += "X-Forwarded-For: " + v + tail
	case 2: // cut off
		req += "X-Forwarded-For: " + v
		addr = ""
	}
	c := zzConn([]byte(req), remote)
	s.send(c)
	l := gomap.ZZPeers(s.db)
	if addr == "" {
		zzvnd.Assert(zzFailed(zzReply(c.Out)) && len(l) == 0, "a header without usable address is refused")
		zzvnd.Reach("refused")
	} else {
		var id storage.PeerID
		copy(id[:], "bbbbbbbbbbbbbbbbbbbb")
		zzvnd.Assert(len(l) == 1 && l[0].ID == id, "the announce is stored")
		if len(l) == 1 {
			zzvnd.Assert(l[0].IP == netip.MustParseAddr(addr), "the announce is stored under the forwarded address, or the connection's without the header")
		}
		zzvnd.Reach("stored")
	}
	zzvnd.Assert(zzStatus(s.get("/heartbeat"), "200"), "the next client is served")
}
