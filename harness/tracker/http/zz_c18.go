package http

import "github.com/crimist/trakx/zzvnd"

// zzCheckParse parses the first size bytes of buf and compares with the
// reference applied to want.
func zzCheckParse(buf []byte, size int, want []byte) {
	r := zzParse(append([]byte(nil), want...))
	p, err := parse(buf, size)
	if err != nil || p.Method != "GET" {
		zzvnd.Assert(!r.ok || r.lax, "a well-formed request is accepted")
		return
	}
	zzvnd.Assert(r.ok, "a malformed request is rejected")
	if !r.ok {
		return
	}
	zzvnd.Reach("accepted")
	zzvnd.Assert(zzvnd.EqBytes([]byte(p.Path), r.path), "the path is the one requested")
	k := 0
	for _, v := range p.Params {
		if len(v) == 0 {
			continue
		}
		if k >= len(r.params) {
			zzvnd.Fail("only the parameters of the request are returned")
			return
		}
		zzvnd.Assert(zzvnd.EqBytes(v, r.params[k]), "each parameter is percent-decoded exactly")
		k++
	}
	zzvnd.Assert(k == len(r.params), "every parameter of the request is returned")
}

//verif:prop=C18 time=200 reach=accepted bounds="a buffer of 13 (thorough 14) arbitrary bytes not starting with R, of which any number belong to the request"
func VC18Any() {
	n := zzvnd.Bound(13, 14)
	buf := zzvnd.Bytes("buf", n)
	size := zzvnd.Choice("size", n+1)
	zzvnd.Assume(buf[0] != 'R')
	want := append([]byte(nil), buf[:size]...)
	zzCheckParse(buf, size, want)
}

//verif:prop=C18 time=200 reach=accepted bounds="GET / with a target of up to 6 (thorough 8) arbitrary bytes"
func VC18Target() {
	n := zzvnd.Choice("len", zzvnd.Bound(6, 8)+1)
	req := []byte("GET /")
	req = append(req, zzvnd.Bytes("target", n)...)
	req = append(req, " HTTP/1.1\r\n\r\n"...)
	want := append([]byte(nil), req...)
	zzCheckParse(req, len(req), want)
}

func zzEncode64(b []byte) (out []byte) {
	char := func(v byte) byte {
		return byte(zzvnd.IteInt(v < 26, int(v)+'A', zzvnd.IteInt(v < 52, int(v)-26+'a', zzvnd.IteInt(v < 62, int(v)-52+'0', zzvnd.IteInt(v == 62, '+', '/')))))
	}
	for i := 0; i < len(b); i += 3 {
		var g [3]byte
		n := copy(g[:], b[i:])
		out = append(out, char(g[0]>>2), char(g[0]<<4&63|g[1]>>4))
		if n > 1 {
			out = append(out, char(g[1]<<2&63|g[2]>>6))
		} else {
			out = append(out, '=')
		}
		if n > 2 {
			out = append(out, char(g[2]&63))
		} else {
			out = append(out, '=')
		}
	}
	return
}

//verif:prop=C18 time=200 reach=accepted bounds="base64 of GET / with a target of up to 4 (thorough 6) arbitrary bytes, followed in the buffer by 6 arbitrary stale bytes"
func VC18Base64() {
	n := zzvnd.Choice("len", zzvnd.Bound(4, 6)+1)
	want := []byte("GET /")
	want = append(want, zzvnd.Bytes("target", n)...)
	want = append(want, " HTTP/1.1"...)
	req := zzEncode64(want)
	size := len(req)
	req = append(req, zzvnd.Bytes("stale", 6)...)
	zzCheckParse(req, size, want)
}

//verif:prop=C18 time=100 bounds="R0VU followed by up to 5 (thorough 8) arbitrary bytes in a buffer of 12"
func VC18Base64Any() {
	n := zzvnd.Choice("len", zzvnd.Bound(6, 9))
	buf := append([]byte("R0VU"), zzvnd.Bytes("buf", 8)...)
	parse(buf, 4+n)
}

//verif:prop=C18 time=100 bounds="any method of up to 4 bytes, an arbitrary separator byte, / or an arbitrary byte, and a short target with or without version"
func VC18Method() {
	n := zzvnd.Choice("len", 5)
	req := zzvnd.Bytes("method", n)
	req = append(req, zzvnd.Bytes("sep", 2)...)
	req = append(req, "a?b=c"...)
	if zzvnd.Bool("version") {
		req = append(req, " HTTP/1.0\r\n"...)
	} else {
		req = append(req, zzvnd.Bytes("end", 3)...)
	}
	want := append([]byte(nil), req...)
	zzCheckParse(req, len(req), want)
}

//verif:prop=C18 time=100 reach=accepted bounds="a scrape of 1, 2, 39 to 47 parameters of arbitrary content, each of 3 bytes"
func VC18Count() {
	n := 1 + zzvnd.Choice("count", 11)
	if n > 2 {
		n += 36
	}
	req := []byte("GET /scrape?")
	for i := 0; i < n; i++ {
		if i > 0 {
			req = append(req, '&')
		}
		v := zzvnd.Bytes("value", 1)
		zzvnd.Assume(zzvnd.And(v[0] != '%', v[0] > '&'))
		zzvnd.Assume(v[0] != '?')
		req = append(req, 'k', '=', v[0])
	}
	req = append(req, " HTTP/1.1\r\nHost: x?y&z /GET / HTTP/\r\n\r\n"...)
	want := append([]byte(nil), req...)
	zzCheckParse(req, len(req), want)
}

//verif:prop=C18 time=100 reach=accepted bounds="an announce URL with a fully percent-encoded 20-byte hash (one arbitrary byte at any position, upper or lower case digits) and another parameter"
func VC18Hash() {
	h := []byte("0123456789abcdefghij")
	k := zzvnd.Choice("position", 20)
	zzvnd.Fill("hash", h[k:k+1])
	lower := zzvnd.Bool("lower")
	digit := func(v byte) byte {
		a := 'A'
		if lower {
			a = 'a'
		}
		return byte(zzvnd.IteInt(v < 10, int(v)+'0', int(v)-10+int(a)))
	}
	req := []byte("GET /announce?info_hash=")
	for _, c := range h {
		req = append(req, '%', digit(c>>4), digit(c&15))
	}
	req = append(req, "&port=1 HTTP/1.1\r\n\r\n"...)
	p, err := parse(req, len(req))
	zzvnd.Assert(err == nil && p.Method == "GET" && p.Path == "/announce", "an announce is accepted")
	if err != nil {
		return
	}
	zzvnd.Assert(zzvnd.EqBytes(p.Params[0], append([]byte("info_hash="), h...)), "the hash is decoded to the exact bytes")
	zzvnd.Assert(zzvnd.EqBytes(p.Params[1], []byte("port=1")), "the other parameter is intact")
	zzvnd.Reach("accepted")
}
