package tracker

import (
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/tracker/stats"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

//verif:prop=C37 time=100 reach=refused bounds="a configuration that was not loaded, every HTTP mode, UDP on or off"
func VC37NotLoaded() {
	var o zzOpened
	fs := zzw.NewFS()
	t := zzBootWith(fs, &o, func(c *config.Configuration) {
		config.ZZUnloaded(c)
		c.HTTP.Mode = []string{"enabled", "info", "disabled"}[zzvnd.Choice("mode", 3)]
		c.UDP.Enabled = zzvnd.Choice("udp", 2) == 1
	})
	zzvnd.Assert(len(t.exits) == 1 && t.exits[0] != 0, "the tracker does not run without a configuration")
	zzvnd.Assert(len(o.udp) == 0 && len(o.tcp) == 0 && len(o.web) == 0 && len(fs.Log) == 0, "nothing is opened without a configuration")
	zzvnd.Reach("refused")
}

//verif:prop=C37 time=100 reach=published,off bounds="a publication interval of 0, 1, 7 or 60 s, a start at any second of it, any number of requests before each of two publications"
func VC37Publish() {
	var o zzOpened
	period := []time.Duration{0, time.Second, 7 * time.Second, time.Minute}[zzvnd.Choice("period", 4)]
	start := time.Unix(zzw.BaseTime+zzvnd.Range64("start", 0, 59), 0)
	now, runs := start, 0
	var hits [2]int64
	for i := range hits {
		hits[i] = zzvnd.Range64("hits", 0, 1<<40)
	}
	t := zzBootWith(zzw.NewFS(), &o, func(c *config.Configuration) {
		c.UDP.Enabled = false
		c.ExpvarInterval = period
		zzw.NowHook = func() time.Time { return now }
		zzw.SleepHook = func(d time.Duration) {
			zzvnd.Assert(period > 0, "statistics are published only when configured")
			if runs > 0 {
				got := zzw.Ints["trakx.requests.hits"]
				zzvnd.Assert(got != nil && got.Value() == hits[runs-1], "the requests are published on every tick")
			}
			if runs == len(hits) {
				select {}
			}
			stats.Hits.Add(hits[runs])
			now = now.Add(d)
			zzvnd.Assert(now.Sub(start) <= period*time.Duration(runs+1), "statistics are published every interval")
			runs++
		}
	})
	zzvnd.Assert(len(t.exits) == 0, "the tracker starts")
	if period > 0 {
		zzvnd.Assert(runs == len(hits), "statistics are published when configured")
		zzvnd.Reach("published")
	} else {
		zzvnd.Reach("off")
	}
}

//verif:prop=C37 time=100 reach=failed,served bounds="listening for UDP or HTTP failing or not, HTTP on or off, UDP on or off"
func VC37ListenFails() {
	var o zzOpened
	udp, web := zzvnd.Choice("udp", 2) == 1, zzvnd.Choice("http", 2) == 1
	udpFail, webFail := zzvnd.Choice("udpfail", 2) == 1, zzvnd.Choice("httpfail", 2) == 1
	zzFailListen = [2]bool{udpFail, webFail}
	t := zzBootWith(zzw.NewFS(), &o, func(c *config.Configuration) {
		c.UDP.Enabled = udp
		c.HTTP.Mode = []string{config.TrackerModeDisabled, config.TrackerModeEnabled}[zzvnd.B2I(web)]
	})
	if udp && udpFail || web && webFail {
		zzvnd.Assert(len(t.exits) > 0 && t.exits[0] != 0, "a tracker that cannot listen where it is configured to exits with a failure")
		zzvnd.Reach("failed")
	} else {
		zzvnd.Assert(len(t.exits) == 0, "the tracker starts")
		zzvnd.Reach("served")
	}
}
