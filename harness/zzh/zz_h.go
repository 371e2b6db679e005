// Package zzh holds helpers shared by the harnesses.
package zzh

import (
	"time"

	"github.com/crimist/trakx/config"
	"github.com/crimist/trakx/pools"
	"github.com/crimist/trakx/zzvnd"
	"github.com/crimist/trakx/zzw"
)

// Setup installs a plain configuration and empty environment.
func Setup() *config.Configuration {
	c := new(config.Configuration)
	c.LogLevel = "error"
	c.Announce.Base = 1800 * time.Second
	c.Numwant.Default = 2
	c.Numwant.Limit = 3
	c.DB.Expiry = 600 * time.Second
	c.DB.Type = "gomap"
	c.DB.Backup.Type = "file"
	c.DB.Backup.Path = "/data/trakx.db"
	c.UDP.Enabled = true
	c.UDP.Threads = 1
	c.UDP.ConnDB.Validate = true
	c.UDP.ConnDB.Expiry = 600 * time.Second
	c.UDP.ConnDB.Trim = 600 * time.Second
	c.HTTP.Mode = config.TrackerModeEnabled
	c.HTTP.Threads = 1
	c.HTTP.IP = "127.0.0.1"
	c.HTTP.Port = 1337
	c.HTTP.Timeout.Read = 2 * time.Second
	c.HTTP.Timeout.Write = 2 * time.Second
	config.Config = c
	config.CachePath = "/cache/"
	config.Logger = zzw.NewLogger()
	pools.Initialize(int(c.Numwant.Limit))
	return c
}

// Injects reports, without forking, whether the n items can be matched
// one-to-one with different ones of m items.
func Injects(n, m int, eq func(i, j int) bool) bool {
	if n > m {
		return false
	}
	memo := make([][]bool, n)
	for i := range memo {
		memo[i] = make([]bool, m)
		for j := range memo[i] {
			memo[i][j] = eq(i, j)
		}
	}
	used := make([]bool, m)
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == n {
			return true
		}
		r := false
		for j := 0; j < m; j++ {
			if !used[j] {
				used[j] = true
				r = zzvnd.Or(r, zzvnd.And(memo[i][j], rec(i+1)))
				used[j] = false
			}
		}
		return r
	}
	return rec(0)
}

// Stop is the panic value that stands for the death of the process.
type Stop struct{}

// FSPlan prepares a file system that dies or fails at an arbitrary point:
// mode 0 nothing happens, 1 the process dies at the k-th point (the returned
// file system then holds what reached the files), 2 the k-th operation fails,
// 3 every operation from the k-th on fails.
type FSPlan struct {
	FS   *zzw.FSys
	Mode int
	Hit  bool // the death or a failure took place
	Errs []error // how a single operation (mode 2) may fail
	snap map[string][]byte
}

// NewFSPlan draws the plan; k is below max.
func NewFSPlan(max int) *FSPlan {
	p := &FSPlan{FS: zzw.NewFS(), Errs: []error{zzw.ErrIO}}
	zzw.FS = p.FS
	p.Mode = zzvnd.Choice("mode", 4)
	k, part := 0, 0
	if p.Mode > 0 {
		k = zzvnd.Choice("at", max)
	}
	if p.Mode > 1 {
		part = []int{0, 3, 1 << 30}[zzvnd.Choice("written", 3)]
	}
	n := 0
	switch p.Mode {
	case 1:
		p.FS.Step = func(string) {
			if n == k && !p.Hit {
				p.Hit = true
				p.snap = map[string][]byte{}
				for f, b := range p.FS.Files {
					p.snap[f] = b
				}
				panic(Stop{})
			}
			n++
		}
	case 2, 3:
		p.FS.Fault = func(op, path string) (int, error) {
			n++
			if n == k+1 || (p.Mode == 3 && n > k) {
				p.Hit = true
				if p.Mode == 2 && len(p.Errs) > 1 {
					return part, p.Errs[zzvnd.Choice("error", len(p.Errs))]
				}
				return part, zzw.ErrIO
			}
			return 0, nil
		}
	}
	return p
}

// Run performs f until it ends or the process dies, and then disarms the plan.
func (p *FSPlan) Run(f func() error) (err error, died bool) {
	v, panicked := zzvnd.Catch(func() { err = f() })
	p.FS.Step, p.FS.Fault = nil, nil
	if panicked {
		if _, ok := v.(Stop); !ok {
			panic(v)
		}
		died = true
		p.FS.Files = p.snap // nothing later took place
	}
	return
}
