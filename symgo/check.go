package main

// The command that decides one property.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type finding struct {
	prop, harness, what string
	line                string
}

// known reads the open findings: "finding: property=<id> harness=<name> what=<text>".
func known() []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		var f finding
		f.line = strings.TrimPrefix(l, "finding: ")
		rest := f.line
		if i := strings.Index(rest, " what="); i >= 0 {
			f.what = rest[i+6:]
			rest = rest[:i]
		}
		for _, w := range strings.Fields(rest) {
			if k, v, ok := strings.Cut(w, "="); ok {
				switch k {
				case "property":
					f.prop = v
				case "harness":
					f.harness = v
				}
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func checkProp(tmp, repo, prop, tier string, budget time.Duration) int {
	start := time.Now()
	hs, all, err := harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	names := hs[prop]
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for property", prop)
		return 2
	}
	e, pkg, err := load(tmp, repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e.tier = tier
	if tier == "thorough" {
		e.stepFull *= 10
	}
	loadT := time.Since(start)
	nat := startNative(e, tmp, repo, all)
	total := budget
	if total == 0 {
		total = 150 * time.Second
		if tier == "thorough" {
			total = 10 * time.Minute
		}
	}
	dumpEvr, dumpN := 0, 0
	if tier == "thorough" {
		dumpEvr, dumpN = 37, 12
	}
	end := time.Now().Add(total)
	var runs []*Run
	var rname []string
	found := false
	// Two passes: every harness first gets a short turn, so that none goes
	// without because those before it need long; what the clock stopped is
	// explored again with all the time that is left.
	turn := 12 * time.Second
	if tier == "thorough" {
		turn = 45 * time.Second
	}
	done := map[string][]*Run{}
	pass := func(names []string, turn time.Duration) (again []string, rc int) {
		for i, name := range names {
			h := pkg.Func(name)
			if h == nil {
				fmt.Fprintln(os.Stderr, "no function", name)
				return nil, 2
			}
			left := time.Until(end)
			share := left / time.Duration(len(names)-i)
			if turn > 0 {
				share = min(2*share, left, turn)
			}
			if share < 3*time.Second {
				share = 3 * time.Second
			}
			if found {
				share = min(share, 5*time.Second)
			}
			r := e.explore(h, share, dumpEvr, dumpN)
			rs := []*Run{r}
			if len(r.viol) == 0 && len(r.racySeen) > 0 && r.fatal == "" {
				// accesses without happens-before: let threads interleave there too
				fmt.Printf("%s: %d paths; unsynchronised accesses found, exploring again with scheduling points at them\n", name, r.Paths)
				r = e.exploreAt(h, share, dumpEvr, dumpN, r.racySeen)
				r.samples = nil
				rs = append(rs, r)
			}
			done[name] = rs
			if len(r.viol) > 0 {
				found = true
			}
			note := "complete"
			if !r.Complete {
				note = "INCOMPLETE"
				if r.fatal != "" {
					note += " (" + r.fatal + ")"
				}
				for _, k := range sortedKeys(r.reduced) {
					note += fmt.Sprintf("; %s (%d)", k, r.reduced[k])
				}
				if turn > 0 && !found && (r.timedOut || rs[0].timedOut) {
					again = append(again, name)
					note = "stopped after its first turn, explored again below"
				}
			}
			fmt.Printf("%s: %d paths, %d assertions, %d queries, %.1fs, %s\n", name, r.Paths, r.Asserts, r.Queries, r.Elapsed.Seconds(), note)
			if found && tier == "quick" && i < len(names)-1 {
				// enough to report; try to confirm before looking at more
				if v, _ := confirm(nat, prop, name, tier, r, nil); v {
					break
				}
			}
		}
		return again, 0
	}
	again, rc := pass(names, turn)
	if rc == 0 && len(again) > 0 && !found {
		_, rc = pass(again, 0)
	}
	if rc != 0 {
		return rc
	}
	for _, name := range names {
		for _, r := range done[name] {
			runs = append(runs, r)
			rname = append(rname, name)
		}
	}

	// replay sampled paths against the real code
	validated, mismatches, natFail := 0, []string(nil), []string(nil)
	var failed []nfile // replays of sampled paths that fail against the real code
	type ref struct {
		r *Run
		n string
		s Sample
	}
	var refs []ref
	f := nfile{Tier: tier}
	<-nat.done
	for i, r := range runs {
		for _, s := range r.samples {
			if s.Inputs == nil || s.MapOrd || (!nat.control && len(s.Sched) > 0) {
				continue
			}
			refs = append(refs, ref{r, rname[i], s})
			f.Runs = append(f.Runs, nrun{Harness: rname[i], Inputs: s.Inputs, Sched: s.Sched, Control: nat.control})
		}
	}
	if nat.err != nil {
		fmt.Fprintln(os.Stderr, "native build failed:", nat.err)
	} else if len(f.Runs) > 0 {
		rs, errs, err := nat.exec(f, 60*time.Second)
		for i, r := range rs {
			if i >= len(refs) {
				break
			}
			switch {
			case r.Outcome == "ok" && equalStrs(r.Obs, refs[i].s.Obs):
				validated++
			case r.Outcome == "ok" && nat.varies(f.Runs[i], tier, r.Obs, refs[i].s.Obs):
				// what is observed is not determined by the inputs (order of
				// map iteration, scheduling): nothing to compare
			case r.Outcome == "ok":
				mismatches = append(mismatches, fmt.Sprintf("%s inputs %v: symbolic %v, native %v", refs[i].n, refs[i].s.Inputs, refs[i].s.Obs, r.Obs))
			default:
				if r.Outcome == "assert" || r.Outcome == "panic" {
					failed = append(failed, nfile{Property: prop, What: r.Msg, Kind: r.Outcome, Tier: tier, Runs: append([]nrun(nil), f.Runs[:i+1]...)})
				}
				natFail = append(natFail, fmt.Sprintf("%s inputs %v sched %v: native %s %s", refs[i].n, refs[i].s.Inputs, refs[i].s.Sched, r.Outcome, r.Msg))
			}
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "native run:", err, firstLine(errs))
		}
	}

	// violations
	reported := 0
	knownHit := map[string]bool{}
	unconfirmed := 0
	var detail []map[string]any
	for i, r := range runs {
		if len(r.viol) == 0 {
			continue
		}
		ok, rep := confirm(nat, prop, rname[i], tier, r, knownHit)
		detail = append(detail, rep...)
		if ok {
			reported++
		}
		for _, d := range rep {
			if d["confirmed"] == false {
				unconfirmed++
			}
		}
	}
	if reported == 0 && len(failed) > 0 {
		// the encoding missed it, but the real code fails the assertion
		d := confirmSample(nat, prop, failed)
		if d != nil {
			detail = append(detail, d)
			reported++
		}
	}
	if reported == 0 {
		// paths that did not end: does the real code return?
		tried := 0
		for i, r := range runs {
			for _, v := range r.long {
				if tried++; tried > 4 || reported > 0 {
					break
				}
				f := nfile{Property: prop, What: v.Msg, Kind: v.Kind, Where: v.Where, Tier: tier, Runs: []nrun{{Harness: rname[i], Inputs: v.Inputs, Sched: v.Sched, Control: nat.control, Repeat: 1}}}
				if ok, how := nat.reproduce(&f); ok {
					detail = append(detail, report(f, how))
					reported++
				}
			}
		}
	}
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: %s\n", k)
	}

	// cross-check sampled queries with another solver
	cross, disagree := 0, 0
	var crossT float64
	if tier == "thorough" {
		t := time.Now()
		cross, disagree = crossCheck(tmp, runs)
		crossT = time.Since(t).Seconds()
	}

	writeEvidence(e, prop, tier, names, rname, runs, start, loadT, validated, mismatches, natFail, reported, detail, nat, cross, disagree, crossT)

	for _, m := range mismatches {
		fmt.Fprintln(os.Stderr, "ENCODING MISMATCH:", m)
	}
	for _, m := range natFail {
		fmt.Fprintln(os.Stderr, "NATIVE FAILURE:", m)
	}
	var paths int64
	for _, r := range runs {
		paths += r.Paths
	}
	switch {
	case reported > 0:
		return 1
	case unconfirmed > 0:
		fmt.Println("a counterexample of the encoding did not reproduce against the real code; the property is undecided")
		return 2
	case len(mismatches) > 0 || len(natFail) > 0:
		fmt.Println("the encoding disagrees with the real code on a sampled path; the property is undecided")
		return 2
	case disagree > 0:
		fmt.Println("the solvers disagree; the property is undecided")
		return 2
	case paths == 0:
		fmt.Println("no path could be explored; the property is undecided")
		return 2
	}
	fmt.Printf("OK property=%s %s: %d paths in %.1fs, %d replayed natively\n", prop, tier, paths, time.Since(start).Seconds(), validated)
	return 0
}

// varies runs one replay several times and reports whether the observations
// differ from run to run or meet those of the symbolic execution.
func (n *native) varies(run nrun, tier string, first, want []string) bool {
	f := nfile{Tier: tier}
	for i := 0; i < 24; i++ {
		f.Runs = append(f.Runs, run)
	}
	rs, _, _ := n.exec(f, 20*time.Second)
	for _, r := range rs {
		if r.Outcome == "ok" && (!equalStrs(r.Obs, first) || equalStrs(r.Obs, want)) {
			return true
		}
	}
	return false
}

// confirmSample reports a sampled path whose assertion holds in the encoding
// but fails when the real code runs it, alone or after other runs.
func confirmSample(nat *native, prop string, failed []nfile) map[string]any {
	for _, f := range failed {
		alone := f
		alone.Runs = f.Runs[len(f.Runs)-1:]
		for try := 0; try < 2; try++ {
			if ok, how := nat.reproduce(&alone); ok {
				return report(alone, how)
			}
		}
	}
	for _, f := range failed {
		if ok, how := nat.reproduce(&f); ok {
			return report(f, how+", after earlier runs")
		}
	}
	return nil
}

// report writes the replay of something the real code shows and the encoding
// does not decide by itself, and announces the violation.
func report(f nfile, how string) map[string]any {
	last := f.Runs[len(f.Runs)-1]
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	h := sha256.Sum256([]byte(f.Kind + "|" + f.What))
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", f.Property, last.Harness, h[:4]))
	writeJSON(path, f)
	by := "native replay of a sampled path"
	if f.Where != "" {
		by = "a path without end in the encoding, and native replay"
	}
	fmt.Printf("%s: %s: %s %s\n  inputs %v\n  schedule %v\n  found by %s: %s\n", last.Harness, f.Kind, f.What, f.Where, last.Inputs, last.Sched, by, how)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return map[string]any{"harness": last.Harness, "kind": f.Kind, "what": f.What, "inputs": last.Inputs, "schedule": last.Sched, "confirmed": true, "native": how, "replay": path, "found_by": by}
}

func equalStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var confirmCache = map[*Run]struct {
	ok  bool
	rep []map[string]any
}{}

// confirm replays the counterexamples of a run and reports those that the real
// code shows too. With hits nil nothing is printed.
func confirm(nat *native, prop, harness, tier string, r *Run, hits map[string]bool) (bool, []map[string]any) {
	c, have := confirmCache[r]
	if !have {
		dir := filepath.Join(verifDir, "replays")
		os.MkdirAll(dir, 0o755)
		seen := map[string]bool{}
		viol := append([]Violation(nil), r.viol...)
		sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Sched) < len(viol[j].Sched) })
		t0 := time.Now()
		for _, v := range viol {
			k := v.Kind + "|" + v.Msg
			if seen[k] || (c.ok && time.Since(t0) > 20*time.Second) {
				continue
			}
			f := nfile{Property: prop, What: v.Msg, Kind: v.Kind, Where: v.Where, Tier: tier, Race: v.Races}
			run := nrun{Harness: harness, Inputs: v.Inputs, Sched: v.Sched, Control: nat.control && !v.Races, Repeat: 1}
			if v.Races || (!nat.control && len(v.Sched) > 0) {
				run.Repeat, f.Jitter = 3000, true
			}
			if v.MapOrd {
				run.Repeat = 3000
			}
			f.Runs = []nrun{run}
			ok, how := nat.reproduce(&f)
			if !ok && f.Race {
				f.Jitter = false
				ok, how = nat.reproduce(&f)
			}
			if !ok && len(v.Sched) > 0 && !v.Races && run.Control {
				// the schedule may not carry over: stress instead
				f.Jitter = true
				f.Runs[0].Control = false
				f.Runs[0].Repeat = 3000
				ok, how = nat.reproduce(&f)
			}
			if !ok && v.Racy {
				// no schedule reaches between plain accesses: that the needed
				// data race exists is what the real code can show
				f.Race, f.Jitter = true, true
				f.Runs[0].Control, f.Runs[0].Repeat = false, 3000
				if ok, how = nat.reproduce(&f); ok {
					how = "the interleaving needs a data race; " + how
				}
			}
			d := map[string]any{"harness": harness, "kind": v.Kind, "what": v.Msg, "where": v.Where, "inputs": v.Inputs, "schedule": v.Sched, "confirmed": ok, "native": how}
			if ok {
				seen[k] = true
				c.ok = true
				h := sha256.Sum256([]byte(k))
				path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", prop, harness, h[:4]))
				writeJSON(path, f)
				d["replay"] = path
			}
			c.rep = append(c.rep, d)
		}
		// an unconfirmed alternative of something confirmed is not a doubt
		var rep []map[string]any
		for _, d := range c.rep {
			if d["confirmed"] == false && seen[d["kind"].(string)+"|"+d["what"].(string)] {
				continue
			}
			rep = append(rep, d)
		}
		c.rep = rep
		<-nat.done
		confirmCache[r] = c
	}
	if hits == nil {
		return c.ok, c.rep
	}
	new := false
	ks := known()
	for _, d := range c.rep {
		desc := fmt.Sprintf("%v: %v", d["kind"], d["what"])
		if d["confirmed"] == false {
			fmt.Printf("UNCONFIRMED %s %s inputs %v schedule %v (%v)\n", harness, desc, d["inputs"], d["schedule"], d["native"])
			continue
		}
		isKnown := false
		for _, k := range ks {
			if k.prop == prop && k.harness == harness && k.what == desc {
				isKnown = true
				hits[k.line] = true
			}
		}
		if isKnown {
			d["known"] = true
			continue
		}
		new = true
		fmt.Printf("%s: %s\n  at %v\n  inputs %v\n  schedule %v\n  native replay: %v\n", harness, desc, d["where"], d["inputs"], d["schedule"], d["native"])
		fmt.Printf("VIOLATION property=%s replay=%v\n", prop, d["replay"])
	}
	return new, c.rep
}

// replayFile re-runs one recorded counterexample.
func replayFile(tmp, repo, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f nfile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_, all, err := harnesses()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	e, _, err := load(tmp, repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	nat := startNative(e, tmp, repo, all)
	ok, how := nat.reproduce(&f)
	fmt.Printf("%s: %s\nreproduced: %v (%s)\n", f.Kind, f.What, ok, how)
	if ok {
		return 1
	}
	return 0
}

// crossCheck runs sampled queries through cvc5.
func crossCheck(tmp string, runs []*Run) (n, bad int) {
	type job struct {
		s string
		r Result
	}
	var jobs []job
	for _, r := range runs {
		for i, s := range r.dumps {
			jobs = append(jobs, job{s, r.dumpRes[i]})
		}
	}
	if len(jobs) > 400 {
		step := len(jobs)/400 + 1
		var j2 []job
		for i := 0; i < len(jobs); i += step {
			j2 = append(j2, jobs[i])
		}
		jobs = j2
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan job)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				cmd := exec.CommandContext(ctx, "cvc5", "--lang", "smt2", "-q")
				cmd.Stdin = strings.NewReader(j.s)
				var out bytes.Buffer
				cmd.Stdout = &out
				cmd.Run()
				cancel()
				o := strings.TrimSpace(out.String())
				mu.Lock()
				switch {
				case o == "sat" || o == "unsat":
					if j.r != Unknown {
						n++
						if (o == "sat") != (j.r == Sat) {
							bad++
							fmt.Fprintln(os.Stderr, "solvers disagree on:\n"+j.s)
						}
					}
				case strings.Contains(o, "error"):
					fmt.Fprintln(os.Stderr, "cvc5:", firstLine(o))
				}
				mu.Unlock()
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	return
}

func writeEvidence(e *Engine, prop, tier string, names, rname []string, runs []*Run, start time.Time, loadT time.Duration, validated int, mismatches, natFail []string, reported int, detail []map[string]any, nat *native, cross, disagree int, crossT float64) {
	var paths, decs, pruned, asserts, queries, sat, unsat, unk, steps int64
	var solve, maxQ time.Duration
	var hs []map[string]any
	funcs := map[string]int{}
	var samples []any
	exhaustive := len(runs) == len(names)
	partial := map[string]string{}
	for i, r := range runs {
		paths += r.Paths
		decs += r.Decs
		pruned += r.Pruned
		asserts += r.Asserts
		queries += r.Queries
		sat += r.SatN
		unsat += r.UnsatN
		unk += r.UnkN
		steps += r.Steps
		solve += r.SolveT
		maxQ = max(maxQ, r.SolveMax)
		exhaustive = exhaustive && r.Complete
		for f, n := range r.funcs {
			if strings.Contains(f, "visigoth") || strings.Contains(f, "snowball") || strings.Contains(f, "easyjson") || strings.Contains(f, "vago") {
				funcs[f] += n
			}
		}
		for k, v := range r.partial {
			partial[k] = v
		}
		red := []string{}
		for _, k := range sortedKeys(r.reduced) {
			red = append(red, fmt.Sprintf("%s (%d)", k, r.reduced[k]))
		}
		if r.fatal != "" {
			red = append(red, "stopped: "+r.fatal)
		}
		hs = append(hs, map[string]any{"harness": rname[i], "paths": r.Paths, "infeasible_or_cut": r.Pruned, "assertions_decided": r.Asserts,
			"queries": r.Queries, "solver_s": round(r.SolveT.Seconds()), "wall_s": round(r.Elapsed.Seconds()), "complete_within_bounds": r.Complete, "reduced": red,
			"reached": r.covers, "threads": r.maxTh, "longest_decision_sequence": r.deepDec})
		for k, s := range r.samples {
			if k < 3 && s.Inputs != nil {
				samples = append(samples, map[string]any{"harness": rname[i], "inputs": s.Inputs, "schedule": s.Sched, "observed": s.Obs})
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var pl []string
	for _, k := range sortedKeys(partial) {
		pl = append(pl, k+": "+partial[k])
	}
	cov := map[string]any{
		"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":          "states are the feasible symbolic execution paths explored, transitions the decisions between them; every path stands for all inputs that take it, and the assertions on it were decided by the solver for all of them",
		"exhaustive":           exhaustive,
		"functions_encoded":    fl,
		"bounds":               e.bounds,
		"instructions":         steps,
		"assertions_decided":   asserts,
		"queries":              queries,
		"queries_sat":          sat,
		"queries_unsat":        unsat,
		"queries_unknown":      unk,
		"solver":               e.solverBin,
		"solver_s":             round(solve.Seconds()),
		"longest_query_s":      round(maxQ.Seconds()),
		"paths_cut":            pruned,
		"harnesses":            hs,
		"load_s":               round(loadT.Seconds()),
		"schedules_imposed":    nat.control,
		"encoding_mismatches":  append(append([]string{}, mismatches...), natFail...),
		"partial_initialisers": pl,
	}
	if tier == "thorough" {
		cov["queries_cross_checked_with_cvc5"] = cross
		cov["cross_check_disagreements"] = disagree
		cov["cross_check_s"] = round(crossT)
	}
	if len(detail) > 0 {
		cov["counterexamples"] = detail
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"inputs, sizes and schedules outside the bounds listed are not covered",
			"the symbolic executor's model of Go and of the modelled standard library functions (DESIGN.md) is faithful; sampled paths are replayed natively and compared",
			"the SMT solver's unsat answers are correct",
		},
		"wall_s": round(time.Since(start).Seconds()), "violations": reported}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := writeJSON(filepath.Join(dir, prop+".json"), ev); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
}

func round(x float64) float64 { return float64(int(x*100+0.5)) / 100 }
