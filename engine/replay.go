package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Replayer runs harnesses natively against the real, compiled code.
type Replayer struct {
	repo, tags string
	ov         *Overlay
	dir        string
	mu         sync.Mutex
	bins       map[bool]string
	errs       map[bool]error
	deep       bool
}

func newReplayer(repo, tags string, ov *Overlay, deep bool) (*Replayer, error) {
	d, err := os.MkdirTemp("", "gosym")
	if err != nil {
		return nil, err
	}
	return &Replayer{repo: repo, tags: tags, ov: ov, dir: d, bins: map[bool]string{}, errs: map[bool]error{}, deep: deep}, nil
}

func (r *Replayer) close() {
	if r != nil && r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *Replayer) writeOverlay() (string, error) {
	m := map[string]string{}
	i := 0
	for p, b := range r.ov.files {
		f := filepath.Join(r.dir, fmt.Sprintf("ov%d.go", i))
		i++
		if err := os.WriteFile(f, b, 0644); err != nil {
			return "", err
		}
		m[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": m})
	p := filepath.Join(r.dir, "overlay.json")
	return p, os.WriteFile(p, js, 0644)
}

func (r *Replayer) bin(race bool) (string, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if b, ok := r.bins[race]; ok {
		return b, r.errs[race]
	}
	b, err := r.build(race)
	r.bins[race], r.errs[race] = b, err
	return b, err
}

func (r *Replayer) build(race bool) (string, error) {
	ovp, err := r.writeOverlay()
	if err != nil {
		return "", err
	}
	out := filepath.Join(r.dir, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-mod=mod", "-overlay", ovp, "-o", out}
	if race {
		args = append(args, "-race")
	}
	if r.tags != "" {
		args = append(args, "-tags", r.tags)
	}
	args = append(args, modPath+"/zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("native build failed: %v: %s", err, buf.String())
	}
	return out, nil
}

type nativeResult struct {
	out     string
	fails   []string
	obs     []string
	reach   string
	panics  string
	done    bool
	timeout bool
	crash   bool
	race    bool
	assume  bool
	missing bool
	alloc   int64
}

// run executes one harness natively with fixed inputs.
func (r *Replayer) run(name string, inputs map[string]uint64, sched []int, race bool, stress int, tmo time.Duration) (*nativeResult, error) {
	bin, err := r.bin(race)
	if err != nil {
		return nil, err
	}
	d, err := os.MkdirTemp(r.dir, "run")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	js, _ := json.Marshal(map[string]any{"inputs": inputs, "sched": sched, "stress": stress, "deep": r.deep})
	in := filepath.Join(d, "in.json")
	if err := os.WriteFile(in, js, 0644); err != nil {
		return nil, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	args := []string{bin, name, in}
	if !race { // the race detector needs terabytes of address space
		args = append([]string{"/bin/sh", "-c", `ulimit -v 16000000; exec "$@"`, "sh"}, args...)
	}
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Dir = d
	cmd.Env = []string{"HOME=" + d, "PATH=/usr/bin:/bin", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = time.Second
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Run()
	res := &nativeResult{out: buf.String()}
	if ctx.Err() != nil {
		res.timeout = true
	}
	for _, l := range strings.Split(res.out, "\n") {
		switch {
		case strings.HasPrefix(l, "VERIF-FAIL: "):
			res.fails = append(res.fails, l[len("VERIF-FAIL: "):])
		case strings.HasPrefix(l, "VERIF-OBS: "):
			res.obs = append(res.obs, l[len("VERIF-OBS: "):])
		case strings.HasPrefix(l, "VERIF-PANIC: "):
			res.panics = l[len("VERIF-PANIC: "):]
		case strings.HasPrefix(l, "VERIF-REACH: "):
			res.reach = l[len("VERIF-REACH: "):]
		case l == "VERIF-DONE":
			res.done = true
		case l == "VERIF-ASSUME: violated":
			res.assume = true
		case l == "VERIF-MISSING":
			res.missing = true
		case strings.HasPrefix(l, "VERIF-ALLOC: "):
			res.alloc, _ = strconv.ParseInt(l[len("VERIF-ALLOC: "):], 10, 64)
		case strings.HasPrefix(l, "panic: "), strings.HasPrefix(l, "fatal error: "):
			res.crash = true
			if strings.Contains(l, "all goroutines are asleep") {
				res.timeout = true
				res.crash = false
			} else if res.panics == "" {
				res.panics = l
			}
		case strings.Contains(l, "WARNING: DATA RACE"):
			res.race = true
		}
	}
	if err != nil && !res.timeout && !res.race && !res.crash && !res.done && res.panics == "" {
		res.crash = true
		res.panics = "abnormal exit: " + err.Error()
	}
	return res, nil
}

// confirm replays a candidate failure; true when the real code shows it too.
func (r *Replayer) confirm(h *Harness, f *Failure, deadline time.Time) (bool, string, *nativeResult) {
	tries := h.Retry
	if f.Par && tries < 12 {
		tries = 12
	}
	if f.Kind == "race" {
		tries = 40
	}
	tmo := 10 * time.Second
	if f.Kind == "deadlock" {
		tmo = 6 * time.Second
	}
	why := "the native run behaved correctly"
	var last *nativeResult
	for i := 0; i < tries; i++ {
		if time.Now().After(deadline) {
			return false, "out of time", last
		}
		sched, stress, race := f.Sched, 0, false
		if f.Kind == "race" {
			race, stress, sched = true, 1, nil
			if i%2 == 0 {
				stress = 0
			}
		} else if f.Par && i >= tries/2 {
			sched = nil // free running
		}
		n, err := r.run(h.Name, f.Inputs, sched, race, stress, tmo)
		if err != nil {
			return false, err.Error(), nil
		}
		last = n
		if n.missing {
			return false, "harness missing from the native program", n
		}
		switch f.Kind {
		case "assert":
			for _, x := range n.fails {
				if x == "assert: "+f.Msg {
					return true, "", n
				}
			}
			if len(n.fails) > 0 {
				return true, "", n
			}
			if n.panics != "" {
				return true, "", n
			}
		case "panic":
			if n.panics != "" {
				return true, "", n
			}
		case "deadlock":
			if n.timeout {
				return true, "", n
			}
		case "race":
			if n.race {
				return true, "", n
			}
		case "alloc":
			if n.alloc > int64(h.Alloc) || n.panics != "" {
				return true, "", n
			}
		}
		if n.assume {
			why = "the native run violated an assumption"
		} else if n.timeout {
			why = "the native run timed out"
		} else if len(n.fails) > 0 {
			why = "the native run failed differently: " + n.fails[0]
		} else if n.panics != "" {
			why = "the native run panicked: " + n.panics
		}
	}
	return false, why, last
}
