package controller

import (
	"errors"
	"net"
	"net/http"
	"os"
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzh"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

const (
	zzPid = "/run/trakx.pid"
	zzLog = "/log/trakx.log"
)

var zzErr = errors.New("injected")

func zzAtoi(b []byte) (v int, ok bool) {
	i := 0
	if len(b) > 0 && (b[0] == '-' || b[0] == '+') {
		i = 1
	}
	if i == len(b) {
		return 0, false
	}
	for _, c := range b[i:] {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int(c-'0')
	}
	if b[0] == '-' {
		v = -v
	}
	return v, true
}

// zzWorld is a machine with an empty file system.
func zzWorld() (*config.Configuration, *zzw.FSys) {
	os.Args = []string{"/usr/bin/trakx", "start"}
	c := zzh.Setup()
	c.Path.Pid, c.Path.Log = zzPid, zzLog
	c.UDP.Enabled = true
	c.UDP.Port = 1337
	zzw.FS = zzw.NewFS()
	zzw.FS.Dirs["/run"], zzw.FS.Dirs["/log"] = true, true
	return c, zzw.FS
}

// zzTracker makes a tracker answer, or not, on each port; it reports whether
// a heartbeat is due.
func zzTracker(c *config.Configuration) bool {
	udp, web := zzvnd.Choice("udp", 6), zzvnd.Choice("http", 4)
	c.UDP.Enabled = udp > 0
	c.HTTP.Mode = []string{config.TrackerModeDisabled, config.TrackerModeEnabled, config.TrackerModeEnabled, config.TrackerModeEnabled}[web]
	var conn *zzw.Conn
	zzw.DialHook = func(network, addr string) (net.Conn, error) {
		zzvnd.Assert(network == "udp" && addr == "localhost:1337", "the configured UDP tracker is asked")
		conn = &zzw.Conn{Remote: &zzw.Addr{S: addr}}
		switch udp {
		case 2:
			return nil, zzErr
		case 3:
			conn.ReadErr = zzErr
		case 4:
			conn.In = []byte{0}
		case 5:
			conn.In = []byte{0xff}
		}
		return conn, nil
	}
	zzw.GetHook = func(url string) (*http.Response, error) {
		zzvnd.Assert(url == "http://localhost:1337/heartbeat", "the configured HTTP tracker is asked")
		switch web {
		case 1:
			return nil, zzErr
		case 2:
			return &http.Response{StatusCode: 404}, nil
		}
		return &http.Response{StatusCode: 200}, nil
	}
	return udp == 5 || web == 3
}

// zzClock counts sleeping time.
func zzClock() *time.Duration {
	d := new(time.Duration)
	zzw.NowHook = func() time.Time { return time.Unix(zzw.BaseTime, 0).Add(*d) }
	zzw.SleepHook = func(x time.Duration) {
		*d += x
		if *d > 2*time.Minute {
			zzvnd.Fail("waiting is bounded")
			zzvnd.Assume(false)
		}
	}
	return d
}
