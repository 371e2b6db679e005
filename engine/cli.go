package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one entry of the known-findings file.
type Finding struct {
	Status   string `json:"status"` // known or fixed
	Property string `json:"property"`
	Harness  string `json:"harness,omitempty"`
	Kind     string `json:"kind,omitempty"`
	Msg      string `json:"msg,omitempty"` // regular expression
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
	Record   string `json:"record,omitempty"`
}

func loadFindings(p string) []Finding {
	var fs []Finding
	b, err := os.ReadFile(p)
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Println("NOTE: known-findings file unreadable:", err)
	}
	return fs
}

func (f *Finding) matches(h *Harness, x *Failure) bool {
	if f.Status != "known" || f.Property != h.Prop || f.Harness != h.Name || f.Kind != "" && f.Kind != x.Kind {
		return false
	}
	ok, err := regexp.MatchString(f.Msg, x.Msg)
	return err == nil && ok && f.Msg != ""
}

func seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func cliMain() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym check|list|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkMain(os.Args[2:]))
	case "list":
		ov, err := buildOverlay("/repo", "/verif", map[string]string{}, nil)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		for _, h := range ov.harnesses {
			fmt.Printf("%s %-34s %-8s %-7s %s\n", h.Prop, h.Name, h.Tier, h.Tags, h.File)
		}
	case "replay":
		os.Exit(replayMain(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

type replayFile struct {
	Property string   `json:"property"`
	Harness  string   `json:"harness"`
	Tags     string   `json:"tags"`
	Failure  *Failure `json:"failure"`
	Native   string   `json:"native_output"`
	How      string   `json:"how"`
}

func replayMain(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: gosym replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ov, err := buildOverlay("/repo", "/verif", map[string]string{}, func(h *Harness) bool { return h.Name == rf.Harness })
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp, err := newReplayer("/repo", rf.Tags, ov, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer rp.close()
	for _, h := range ov.harnesses {
		if h.Name == rf.Harness {
			ok, why, n := rp.confirm(h, rf.Failure, time.Now().Add(5*time.Minute))
			if n != nil {
				fmt.Print(n.out)
			}
			fmt.Println("reproduced:", ok, why)
			if ok {
				return 1
			}
			return 0
		}
	}
	return 2
}

type harnessReport struct {
	Harness       string            `json:"harness"`
	Package       string            `json:"package"`
	Tags          string            `json:"tags,omitempty"`
	Bounds        string            `json:"bounds"`
	Paths         int               `json:"paths"`
	Ends          map[string]int    `json:"path_ends"`
	Forks         int64             `json:"forks"`
	Instrs        int64             `json:"ssa_instructions"`
	SchedPoints   int64             `json:"schedule_points"`
	Asserts       int64             `json:"assertions_evaluated"`
	Discharged    int64             `json:"assertions_discharged"`
	Inconclusive  int64             `json:"assertions_inconclusive"`
	Queries       int64             `json:"solver_queries"`
	Reused        int64             `json:"solver_answers_reused"`
	Sat           int64             `json:"solver_sat"`
	Unsat         int64             `json:"solver_unsat"`
	Unknown       int64             `json:"solver_unknown"`
	SolverSeconds float64           `json:"solver_seconds"`
	CrossChecked  int64             `json:"cross_checked_cvc5"`
	CrossDisagree int64             `json:"cross_disagreements"`
	WallSeconds   float64           `json:"wall_seconds"`
	Complete      bool              `json:"complete_within_bounds"`
	Feasible      int64             `json:"paths_shown_feasible_by_query"`
	Functions     []string          `json:"functions_encoded"`
	Reached       []string          `json:"reachability_witnesses"`
	Notes         []string          `json:"notes,omitempty"`
	Unsupported   []string          `json:"unsupported,omitempty"`
	Validated     int               `json:"native_validations"`
	Unreproduced  []string          `json:"unreproduced_candidates,omitempty"`
	Sample        map[string]uint64 `json:"sample_inputs,omitempty"`
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property (several, with commas, for development)")
	tier := fs.String("tier", "quick", "quick or thorough")
	repo := fs.String("repo", "/repo", "repository")
	verif := fs.String("verif", "/verif", "framework")
	only := fs.String("harness", "", "run only harnesses matching this regular expression")
	workers := fs.Int("workers", 8, "workers")
	nocross := fs.Bool("nocross", false, "no cross-checking")
	noreplay := fs.Bool("noreplay", false, "report symbolic candidates without replay (development)")
	verbose := fs.Bool("v", false, "verbose")
	fs.Parse(args)
	start := time.Now()
	deep := *tier == "thorough"
	budget := 780 * time.Second
	if deep {
		budget = 3 * 3600 * time.Second
	}
	deadline := start.Add(budget)
	sel := func(h *Harness) bool {
		if !strings.Contains(","+*prop+",", ","+h.Prop+",") || h.Tier == "thorough" && !deep {
			return false
		}
		if *only != "" {
			ok, _ := regexp.MatchString(*only, h.Name)
			return ok
		}
		return true
	}
	findings := loadFindings(filepath.Join(*verif, "known-findings.json"))
	all, err := buildOverlay(*repo, *verif, map[string]string{}, sel)
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	var hs []*Harness
	tagset := map[string]bool{}
	for _, h := range all.harnesses {
		if sel(h) {
			hs = append(hs, h)
			tagset[h.Tags] = true
		}
	}
	var tags []string
	for t := range tagset {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", *prop)
		return 2
	}
	var reports []*harnessReport
	violations := 0
	var notes []string
	knownPrinted := map[string]bool{}
	say := func(format string, a ...any) {
		s := fmt.Sprintf(format, a...)
		notes = append(notes, s)
		fmt.Println(s)
	}
	for _, tag := range tags {
		t0 := time.Now()
		ld, err := load(*repo, *verif, tag, sel)
		if err != nil {
			say("REDUCED-BOUND: %v", err)
			continue
		}
		ld.eng.deep = deep
		for f, e := range ld.ov.excluded {
			say("REDUCED-BOUND: harness file %s does not fit the current tree: %s", f, e)
		}
		if *verbose {
			fmt.Printf("loaded tags=%q in %.1fs\n", tag, time.Since(t0).Seconds())
		}
		rp, err := newReplayer(*repo, tag, ld.ov, deep)
		if err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
		defer rp.close()
		if !*noreplay {
			go rp.bin(false) // warm up while the solver works
		}
		sort.SliceStable(ld.ov.harnesses, func(i, j int) bool {
			return strings.Index(*prop, ld.ov.harnesses[i].Prop) < strings.Index(*prop, ld.ov.harnesses[j].Prop)
		})
		for _, h := range ld.ov.harnesses {
			if !sel(h) || h.Tags != tag {
				continue
			}
			if violations > 0 && !deep {
				break // one reproduced violation decides the check
			}
			fn := ld.fns[h.Pkg+"."+h.Name]
			if fn == nil {
				say("REDUCED-BOUND: harness %s not built", h.Name)
				continue
			}
			tsec := h.Time
			if deep {
				tsec = h.TTime
				if tsec == 0 {
					tsec = 10 * h.Time
				}
			}
			if left := int(time.Until(deadline).Seconds()) - 60; tsec > left {
				tsec = left
			}
			if tsec <= 0 {
				say("REDUCED-BOUND: harness %s not run: out of time", h.Name)
				continue
			}
			lim := Limits{MaxPaths: h.Paths, MaxSteps: h.Steps, MaxConc: h.Conc, MaxSpins: h.Spins, TimeMs: int64(tsec) * 1000, QueryMs: h.QueryMs, MaxDepth: h.Depth}
			if deep {
				lim.MaxPaths *= 10
			}
			r := ld.eng.Explore(h, fn, lim, *workers, !*nocross, seed())
			rep := &harnessReport{Harness: h.Name, Package: h.Pkg, Tags: h.Tags, Bounds: h.Bounds, Paths: r.paths, Ends: r.ends, Forks: r.forks, Instrs: r.instrs,
				SchedPoints: r.schedPoints, Asserts: r.asserts, Discharged: r.discharged, Inconclusive: r.inconclusive,
				Queries: r.sol.queries, Reused: r.sol.cached, Sat: r.sol.sat, Unsat: r.sol.unsat, Unknown: r.sol.unknown, SolverSeconds: float64(r.sol.nanos) / 1e9,
				CrossChecked: r.sol.crossChecked, CrossDisagree: r.sol.crossDisagree, WallSeconds: r.wall.Seconds(),
				Feasible: r.feasOK, Notes: sortedCounts(r.notes), Unsupported: sortedCounts(r.unsup)}
			for f := range r.usedFns {
				rep.Functions = append(rep.Functions, f)
			}
			sort.Strings(rep.Functions)
			for f := range r.reach {
				rep.Reached = append(rep.Reached, f)
			}
			sort.Strings(rep.Reached)
			rep.Complete = r.truncated == 0 && len(r.unsup) == 0 && r.inconclusive == 0 && r.sol.unknown == 0
			reports = append(reports, rep)
			if profileForks {
				printForks()
			}
			fmt.Printf("%s: paths=%d forks=%d instrs=%d asserts=%d discharged=%d queries=%d solver=%.1fs wall=%.1fs complete=%v\n",
				h.Name, r.paths, r.forks, r.instrs, r.asserts, r.discharged, r.sol.queries, float64(r.sol.nanos)/1e9, r.wall.Seconds(), rep.Complete)
			for _, u := range rep.Unsupported {
				say("REDUCED-BOUND: %s: unsupported: %s", h.Name, u)
			}
			for _, u := range rep.Notes {
				say("REDUCED-BOUND: %s: %s", h.Name, u)
			}
			if r.sol.crossDisagree > 0 {
				say("INCONCLUSIVE: %s: the two solvers disagree on %d queries", h.Name, r.sol.crossDisagree)
			}
			for _, w := range h.Reach {
				if !r.reach[w] {
					say("REDUCED-BOUND: %s: witness point %q was not reached", h.Name, w)
				}
			}
			if *verbose {
				fmt.Println("  ends:", r.ends, "reach:", rep.Reached, "bad models:", r.sol.badModels, "unknown:", r.sol.unknown, "cached:", r.sol.cached)
			}
			if r.sol.crossDisagree > 0 {
				continue
			}
			// replay candidates
			for _, key := range r.order {
				var known *Finding
				for i := range findings {
					if findings[i].matches(h, r.fails[key][0]) {
						known = &findings[i]
					}
				}
				if *noreplay {
					fmt.Println("CANDIDATE", h.Name, key)
					b, _ := json.MarshalIndent(r.fails[key][0], "  ", " ")
					fmt.Println("  " + string(b))
					continue
				}
				if known == nil && violations >= 1 {
					continue
				}
				ok := false
				why := ""
				for _, f := range r.fails[key] {
					var n *nativeResult
					ok, why, n = rp.confirm(h, f, deadline)
					if ok {
						if known != nil {
							if !knownPrinted[known.What] {
								knownPrinted[known.What] = true
								fmt.Printf("KNOWN-FINDING: property=%s %s\n", h.Prop, known.What)
							}
							break
						}
						violations++
						dir := filepath.Join(*verif, "replays")
						os.MkdirAll(dir, 0755)
						p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", h.Prop, h.Name, violations))
						out := n.out
						if len(out) > 20000 {
							out = out[:20000]
						}
						b, _ := json.MarshalIndent(&replayFile{h.Prop, h.Name, h.Tags, f, out, "bin/gosym replay " + p}, "", " ")
						os.WriteFile(p, b, 0644)
						fmt.Printf("%s: %s\n", h.Name, key)
						fmt.Printf("VIOLATION property=%s replay=%s\n", h.Prop, p)
						break
					}
					if *verbose && n != nil {
						fmt.Println("  native:", strings.ReplaceAll(n.out, "\n", "\n    "))
						b, _ := json.Marshal(f)
						fmt.Println("  candidate:", string(b))
					}
				}
				if !ok {
					s := key + " (" + why + ")"
					rep.Unreproduced = append(rep.Unreproduced, s)
					say("INCONCLUSIVE: %s: a symbolic counterexample did not reproduce: %s", h.Name, s)
				}
			}
			// validate the encoding: witnesses must behave identically natively
			if !*noreplay && violations == 0 {
				for _, w := range r.witness {
					if w == nil || time.Until(deadline) < 30*time.Second {
						continue
					}
					if rep.Sample == nil {
						rep.Sample = w.Inputs
					}
					same := false
					diff := ""
					for try := 0; try < max(1, h.Retry) && !same; try++ {
						tw := time.Now()
						n, err := rp.run(h.Name, w.Inputs, w.Sched, false, 0, 30*time.Second)
						if *verbose {
							fmt.Printf("  witness run: %.2fs sched=%d\n", time.Since(tw).Seconds(), len(w.Sched))
						}
						if err != nil {
							diff = err.Error()
							break
						}
						same = n.done && !n.assume && len(n.fails) == 0 && strings.Join(n.obs, "\n") == strings.Join(w.Obs, "\n")
						if !same {
							diff = fmt.Sprintf("done=%v panics=%q fails=%v assume=%v obs=%v want=%v", n.done, n.panics, n.fails, n.assume, n.obs, w.Obs)
						}
					}
					if same {
						rep.Validated++
					} else {
						say("INCONCLUSIVE: %s: a witness behaved differently natively: %s", h.Name, diff)
						if *verbose {
							b, _ := json.Marshal(w)
							fmt.Println("  witness:", string(b))
						}
						if len(h.Tags) > 1<<20 {
							break
						}
					}
				}
			}
		}
	}
	if *repo == "/repo" && !strings.Contains(*prop, ",") { // a run on a scratch copy is no evidence
		writeEvidence(*verif, *prop, *tier, reports, notes, violations, time.Since(start).Seconds())
	}
	if violations > 0 {
		return 1
	}
	return 0
}

func writeEvidence(verif, prop, tier string, reports []*harnessReport, notes []string, violations int, wall float64) {
	var states, trans, asserts, disch, queries, instrs, valid int64
	var solver float64
	fns := map[string]bool{}
	var samples []any
	var bounds []string
	complete := true
	for _, r := range reports {
		states += int64(r.Paths)
		trans += r.Forks + r.SchedPoints
		asserts += r.Asserts
		disch += r.Discharged
		queries += r.Queries
		instrs += r.Instrs
		valid += int64(r.Validated)
		solver += r.SolverSeconds
		complete = complete && r.Complete
		for _, f := range r.Functions {
			fns[f] = true
		}
		bounds = append(bounds, r.Harness+": "+r.Bounds)
		if r.Sample != nil {
			samples = append(samples, map[string]any{"harness": r.Harness, "inputs": r.Sample})
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if len(samples) == 0 {
		for _, r := range reports {
			samples = append(samples, map[string]any{"harness": r.Harness, "path_ends": r.Ends})
		}
	}
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": valid,
		"samples":                       samples,
		"what":                          "states = symbolic execution paths completed; transitions = solver-decided branch and schedule points",
		"functions_encoded":             fl,
		"bounds":                        bounds,
		"assertions_evaluated":          asserts,
		"assertions_discharged":         disch,
		"solver_queries":                queries,
		"solver_seconds":                solver,
		"ssa_instructions_executed":     instrs,
		"all_paths_within_bounds":       complete,
		"harnesses":                     reports,
		"notes":                         notes,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": violations,
		"assumptions": []string{
			"environment (clock, randomness, files, network, processes, SQL, gob, locks) is the model in harness/zzw, used by the symbolic and the native runs alike",
			"reflection-based formatting and encoding/binary are executed through the models in harness/zzvnd/shim.go; logging has no effect",
			"z3 answers are trusted for unsat; a share is cross-checked with cvc5",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}
