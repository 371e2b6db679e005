package tracker

import (
	"net/http"
	"net/url"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

type zzRW struct {
	h    http.Header
	code int
	body []byte
}

func (w *zzRW) Header() http.Header { return w.h }
func (w *zzRW) WriteHeader(c int) {
	if w.code == 0 {
		w.code = c
	}
}
func (w *zzRW) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, b...)
	return len(b), nil
}

//verif:prop=C37 time=300 reach=tracker,info,off bounds="every combination of HTTP mode (enabled, info, disabled, an unknown word, empty), UDP on or off, debugging port off or on, no or one bind address, ports 1, 1337 and 65535, statistics on or off"
func VC37Services() {
	var o zzOpened
	mode := []string{"enabled", "info", "disabled", "on", ""}[zzvnd.Choice("mode", 5)]
	udp := zzvnd.Choice("udp", 2) == 1
	pprof := []int{0, 6060}[zzvnd.Choice("pprof", 2)]
	ip := []string{"", "10.1.2.3"}[zzvnd.Choice("ip", 2)]
	port := []int{1, 1337, 65535}[zzvnd.Choice("port", 3)]
	t := zzBootWith(zzw.NewFS(), &o, func(c *config.Configuration) {
		c.HTTP.Mode, c.HTTP.IP, c.HTTP.Port = mode, ip, port
		c.UDP.Enabled, c.UDP.IP, c.UDP.Port = udp, ip, 70-port&7
		c.Debug.Pprof = pprof
		if zzvnd.Choice("stats", 2) == 1 {
			c.ExpvarInterval = time.Second
		}
	})
	zzvnd.Assert(len(t.exits) == 0, "the tracker starts")
	if udp {
		want := ip
		if ip == "" {
			want = "<nil>"
		}
		zzvnd.Assert(len(o.udp) == 1 && o.udp[0] == want+" "+zzItoa(70-port&7), "the UDP tracker listens on its address and port")
	} else {
		zzvnd.Assert(len(o.udp) == 0, "a disabled UDP tracker does not listen")
	}
	var web []*zzw.HTTPServer
	debug := 0
	for _, s := range o.web {
		if strings.HasSuffix(s.Addr, ":6060") {
			zzvnd.Assert(s.Addr == "127.0.0.1:6060" || s.Addr == "localhost:6060", "debugging is offered to this machine only")
			debug++
		} else {
			web = append(web, s)
		}
	}
	zzvnd.Assert(debug == zzvnd.B2I(pprof != 0), "debugging is offered when configured")
	switch mode {
	case "enabled":
		zzvnd.Assert(len(o.tcp) == 1 && o.tcp[0] == ip+":"+zzItoa(port) && len(web) == 0, "the HTTP tracker listens on its address and port")
		zzvnd.Reach("tracker")
	case "info":
		zzvnd.Assert(len(o.tcp) == 0 && len(web) == 1 && strings.HasSuffix(web[0].Addr, ":"+zzItoa(port)), "the information server listens on its port")
		zzvnd.Reach("info")
	default:
		zzvnd.Assert(len(o.tcp) == 0 && len(web) == 0, "without an HTTP mode nothing listens for HTTP")
		zzvnd.Reach("off")
	}
	if zzvnd.Choice("stop", 2) == 1 {
		t.signal(syscall.SIGTERM)
		zzvnd.Assert(len(t.exits) == 1 && t.exits[0] == 0, "the tracker stops whatever runs")
	}
}

//verif:prop=C37 time=300 reach=file,answer,unknown bounds="the information server with two embedded files of arbitrary contents of 3 bytes, asked for any path of up to 6 (thorough 10) plain characters or one of its own, with any query of 2 characters"
func VC37Info() {
	var o zzOpened
	text := zzvnd.Str("text", 3)
	zzw.EmbedFiles = map[string]string{"embedded/trakx.yaml": "secret: 1", "embedded/index.html": "<in\tdex>", "embedded/a.txt": text}
	fs := zzw.NewFS()
	t := zzBootWith(fs, &o, func(c *config.Configuration) { c.HTTP.Mode, c.Debug.Pprof = "info", 6060*zzvnd.Choice("pprof", 2) })
	var web *zzw.HTTPServer
	for _, s := range o.web {
		if !strings.HasSuffix(s.Addr, ":6060") {
			web = s
		}
	}
	if web == nil || web.Handler == nil {
		zzvnd.Fail("the information server has pages of its own")
		return
	}
	path := "/"
	if k := zzvnd.Choice("path", 2); k == 0 {
		b := zzvnd.Bytes("any", zzvnd.Choice("len", zzvnd.Bound(7, 11)))
		for _, c := range b {
			zzvnd.Assume(c > ' ' && c < 0x7f && c != '/' && c != '?' && c != '%')
		}
		path += string(b)
	} else {
		path = []string{"/announce", "/scrape", "/stats", "/heartbeat", "/a.txt", "/index.html", "/trakx.yaml", "/embedded/trakx.yaml", "/debug/pprof/", "/debug/vars"}[zzvnd.Choice("own", 10)]
	}
	for i := 0; i < 2; i++ {
		w := &zzRW{h: http.Header{}}
		web.Handler.ServeHTTP(w, &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: "x=" + zzvnd.Str("query", 2)}, Header: http.Header{}})
		body := w.body
		switch path {
		case "/announce":
			n, ok := zzInterval(body)
			zzvnd.Assert(w.code == 200 && ok && n >= 3600, "an announce is told to come back late")
			zzvnd.Reach("answer")
		case "/scrape", "/heartbeat":
			zzvnd.Assert((w.code == 200 || w.code == 0) && len(body) == 0, "scrapes and heartbeats get an empty reply")
		case "/stats":
			zzvnd.Assert(w.code == 200 && string(body) == string(zzw.StatsBody), "/stats gets the statistics")
		case "/a.txt":
			zzvnd.Assert(w.code == 200 && zzvnd.EqBytes(body, []byte(text)), "a file is served under its name")
			zzvnd.Reach("file")
		case "/", "/index.html":
			zzvnd.Assert(w.code == 200 && string(body) == "<index>", "/ is the index page")
		default:
			zzvnd.Assert(w.code == 404 || string(body) == "<index>", "any other path gets the index page or is not found")
			zzvnd.Reach("unknown")
		}
	}
	zzvnd.Assert(len(t.exits) == 0, "the tracker keeps running")
	t.signal(os.Interrupt)
	zzvnd.Assert(len(t.exits) == 1 && t.exits[0] == 0, "the tracker stops")
}

// zzInterval reads a dictionary with an interval only.
func zzInterval(b []byte) (n int, ok bool) {
	const head = "d8:intervali"
	if len(b) < len(head)+3 || string(b[:len(head)]) != head || string(b[len(b)-2:]) != "ee" {
		return 0, false
	}
	for _, c := range b[len(head) : len(b)-2] {
		if c < '0' || c > '9' {
			return 0, false
		}
		n = n*10 + int(c-'0')
	}
	return n, true
}
