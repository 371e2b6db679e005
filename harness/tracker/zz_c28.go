package tracker

import (
	"net/netip"
	"os"
	"syscall"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C28 time=300 reach=exit,save bounds="the whole tracker started on an empty machine (HTTP enabled, disabled or info; UDP enabled or not), up to 2 peers with arbitrary hash bytes, ids, ports and addresses announced and a client connected over UDP; then up to 2 (thorough 3) signals out of interrupt, terminate, save and hangup, with either save failing; then a restart on the files left behind"
func VC28Restart() {
	fs := zzw.NewFS()
	fs.Dirs["/data"], fs.Dirs["/cache"] = true, true
	mode := []string{config.TrackerModeEnabled, config.TrackerModeDisabled, config.TrackerModeInfo}[zzvnd.Choice("http", 3)]
	conf := func(c *config.Configuration) { c.HTTP.Mode = mode }
	t := zzBoot(fs, conf)
	zzvnd.Assert(len(t.exits) == 0, "the tracker starts")
	var ip [4]byte
	zzvnd.Fill("ip", ip[:])
	from := netip.AddrPortFrom(netip.AddrFrom4(ip), 999)
	hash := zzvnd.Bytes("hash", 20)
	id := t.connect(from)
	n := zzvnd.Choice("peers", 3)
	for i := 0; i < n; i++ {
		p := zzvnd.U16("port")
		zzvnd.Assume(p != 0)
		t.ask(zzAnnounce(id, hash, byte(i), p, byte(i)), from)
	}
	fail := ""
	if zzvnd.Choice("fail", 3) > 0 {
		fail = []string{zzDB, zzConns}[zzvnd.Choice("failing", 2)]
	}
	fs.Fault = func(op, path string) (int, error) {
		if fail != "" && len(path) >= len(fail) && path[:len(fail)] == fail && op != "read" && op != "stat" {
			return 0, zzErr
		}
		return 0, nil
	}
	saved, exited := false, false
	for i := zzvnd.Bound(2, 3); i > 0 && !exited; i-- {
		s := []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGHUP}[zzvnd.Choice("signal", 4)]
		before := len(fs.Log)
		t.signal(s)
		switch s {
		case syscall.SIGUSR1:
			saved = true
		case syscall.SIGHUP:
			zzvnd.Assert(len(fs.Log) == before, "another signal has no effect")
		default:
			saved, exited = true, true
		}
		if !exited {
			zzvnd.Assert(len(t.exits) == 0, "the tracker keeps running")
			a, b := t.counts(hash, netip.MustParseAddrPort("8.8.8.8:8"))
			zzvnd.Assert(a+b == n, "the tracker keeps serving")
			if saved {
				zzvnd.Reach("save")
			}
		}
	}
	if exited {
		zzvnd.Assert(len(t.exits) == 1 && t.exits[0] == 0, "the tracker exits successfully")
		zzvnd.Assert(t.sock.Closed == 1, "the UDP listener is closed")
		if mode == config.TrackerModeEnabled {
			zzvnd.Assert(t.ln.closed == 1, "the HTTP listener is closed")
		}
		zzvnd.Reach("exit")
	}
	// the next process
	fs.Fault = nil
	u := zzBoot(fs, conf)
	zzvnd.Assert(len(u.exits) == 0, "the tracker starts again")
	want := 0
	if saved && fail != zzDB {
		want = n
	}
	conns := 0
	if saved && fail != zzConns {
		conns = 1
	}
	a, b := u.counts(hash, netip.MustParseAddrPort("9.9.9.9:9"))
	zzvnd.Assert(a+b == want, "every peer known at the save is there after a restart")
	zzvnd.Assert(want < 2 || a == 1, "a restored peer is as complete as it was")
	if from.Addr() != netip.MustParseAddr("9.9.9.9") {
		r := u.ask(zzAnnounce(id, hash, 9, 80, 1), from)
		zzvnd.Assert((r[3] == 1) == (conns == 1), "the connections known at the save are there after a restart")
	}
}

//verif:prop=C28 time=300 reach=done bounds="the tracker with HTTP only, a peer with arbitrary hash bytes (plain characters) and port announced over HTTP; the database save failing or not, the database kept by gomap with a file backup or none; one signal; then a restart"
func VC28HTTPOnly() {
	fs := zzw.NewFS()
	fs.Dirs["/data"], fs.Dirs["/cache"] = true, true
	backup := []string{"file", "none"}[zzvnd.Choice("backup", 2)]
	conf := func(c *config.Configuration) { c.UDP.Enabled = false; c.DB.Backup.Type = backup }
	t := zzBoot(fs, conf)
	hash := zzvnd.Bytes("hash", 20)
	for _, c := range hash {
		zzvnd.Assume(zzvnd.And(c > '&', c != '?'))
	}
	stopped := zzvnd.Choice("stopped", 2) == 1
	t.get("/announce?compact&left=0&info_hash=" + string(hash) + "&peer_id=aaaaaaaaaaaaaaaaaaaa&port=80")
	if stopped {
		t.get("/announce?event=stopped&info_hash=" + string(hash) + "&peer_id=aaaaaaaaaaaaaaaaaaaa&port=80")
	}
	fail := zzvnd.Choice("fail", 2) == 1
	fs.Fault = func(op, path string) (int, error) {
		if fail && op != "read" && op != "stat" {
			return 0, zzErr
		}
		return 0, nil
	}
	s := []os.Signal{os.Interrupt, syscall.SIGTERM, syscall.SIGUSR1}[zzvnd.Choice("signal", 3)]
	t.signal(s)
	if s == syscall.SIGUSR1 {
		zzvnd.Assert(len(t.exits) == 0 && len(t.get("/heartbeat")) > 0, "the tracker keeps running")
	} else {
		zzvnd.Assert(len(t.exits) == 1 && t.exits[0] == 0 && t.ln.closed == 1, "the tracker closes its listener and exits successfully")
	}
	fs.Fault = nil
	u := zzBoot(fs, conf)
	r := string(u.get("/scrape?info_hash=" + string(hash)))
	n := "0"
	if backup == "file" && !stopped && !fail {
		n = "1"
	}
	want := "completei" + n + "e"
	found := false
	for i := 0; i+len(want) <= len(r); i++ {
		found = found || r[i:i+len(want)] == want
	}
	zzvnd.Assert(found, "every peer known at the save is there after a restart")
	zzvnd.Reach("done")
}

//verif:prop=C28 time=200 reach=done bounds="a tracker with one UDP peer of arbitrary port told to save; an interrupt or termination arrives during any operation of that save, delivered as the system does (dropped when nobody can take it)"
func VC28Busy() {
	fs := zzw.NewFS()
	fs.Dirs["/data"], fs.Dirs["/cache"] = true, true
	t := zzBoot(fs, nil)
	from := netip.MustParseAddrPort("1.2.3.4:999")
	hash := make([]byte, 20)
	port := zzvnd.U16("port")
	zzvnd.Assume(port != 0)
	id := t.connect(from)
	s := []os.Signal{os.Interrupt, syscall.SIGTERM}[zzvnd.Choice("signal", 2)]
	at, ops := zzvnd.Choice("at", 5), 0
	fs.Fault = func(op, path string) (int, error) {
		if ops == at {
			select {
			case t.sig <- s:
			default:
			}
		}
		ops++
		return 0, nil
	}
	t.ask(zzAnnounce(id, hash, 0, port, 0), from)
	t.signal(syscall.SIGUSR1)
	zzvnd.Assume(ops > at)
	fs.Fault = nil
	zzvnd.Assert(len(t.exits) == 1 && t.exits[0] == 0, "a signal that arrives during a save is obeyed")
	u := zzBoot(fs, nil)
	a, b := u.counts(hash, netip.MustParseAddrPort("9.9.9.9:9"))
	zzvnd.Assert(a+b == 1, "every peer known at the save is there after a restart")
	zzvnd.Reach("done")
}

//verif:prop=C28 time=200 reach=done bounds="a tracker with one UDP peer of arbitrary port told to exit; the save is held at its first, second or third file operation while the listeners are examined"
func VC28Drain() {
	fs := zzw.NewFS()
	fs.Dirs["/data"], fs.Dirs["/cache"] = true, true
	t := zzBoot(fs, nil)
	from := netip.MustParseAddrPort("1.2.3.4:999")
	hash := make([]byte, 20)
	port := zzvnd.U16("port")
	zzvnd.Assume(port != 0)
	id := t.connect(from)
	t.ask(zzAnnounce(id, hash, 0, port, 0), from)
	s := []os.Signal{os.Interrupt, syscall.SIGTERM}[zzvnd.Choice("signal", 2)]
	at, ops := zzvnd.Choice("at", 3), 0
	gate := make(chan bool)
	fs.Fault = func(op, path string) (int, error) {
		ops++
		if ops == at+1 {
			<-gate
		}
		return 0, nil
	}
	t.signal(s)
	zzvnd.Assume(ops > at)
	zzvnd.Assert(len(t.exits) == 0, "the tracker exits only after it has saved")
	zzvnd.Assert(t.sock.Closed == 1 && t.ln.closed == 1, "the listeners are closed before anything is saved")
	fs.Fault = nil
	close(gate)
	zzvnd.Settle()
	zzvnd.Assert(len(t.exits) == 1 && t.exits[0] == 0, "the tracker exits successfully")
	u := zzBoot(fs, nil)
	a, b := u.counts(hash, netip.MustParseAddrPort("9.9.9.9:9"))
	zzvnd.Assert(a+b == 1, "every peer known at the save is there after a restart")
	zzvnd.Reach("done")
}
