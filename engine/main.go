package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harness struct {
	name string
	fn   *ssa.Function
}

func main() {
	var (
		repo    = flag.String("repo", "/repo", "repository")
		verif   = flag.String("verif", "/verif", "verification directory")
		prop    = flag.String("prop", "", "property id")
		only    = flag.String("only", "", "only harnesses whose name contains this")
		tier    = flag.String("tier", "quick", "quick or thorough")
		seed    = flag.Int64("seed", 1, "seed")
		workers = flag.Int("workers", runtime.NumCPU(), "workers")
		budget  = flag.Duration("budget", 0, "total exploration budget")
		verbose = flag.Bool("v", false, "verbose")
		noMerge = flag.Bool("nomerge", false, "disable if-conversion")
		noRepl  = flag.Bool("noreplay", false, "skip native replay")
		list    = flag.Bool("dump", false, "dump all violations")
	)
	flag.Parse()
	cfg := &Config{tier: *tier, seed: *seed, workers: *workers, maxSteps: 6_000_000, qTimeout: 1500 * time.Millisecond, hardLim: 30 * time.Second, verbose: *verbose, noMerge: *noMerge}
	total := *budget
	if total == 0 {
		total = 300 * time.Second
		if *tier == "thorough" {
			total = 1800 * time.Second
			cfg.hardLim = 180 * time.Second
			cfg.maxSteps = 30_000_000
		}
	}
	t0 := time.Now()
	if v := os.Getenv("VSYM_STATS"); v != "" {
		cfg.verbose = true
	}
	code := runCheck(*repo, *verif, *prop, *only, cfg, total, t0, *noRepl, *list)
	os.Exit(code)
}

func runCheck(repo, verif, prop, only string, cfg *Config, total time.Duration, t0 time.Time, noReplay, dump bool) int {
	ld, err := Load(repo, filepath.Join(verif, "harness"), map[string]bool{prop: true})
	if err != nil {
		fmt.Println("ERROR: cannot load:", err)
		return 2
	}
	defer ld.Close()
	loadS := time.Since(t0).Seconds()
	for _, d := range ld.dropped {
		fmt.Println("REDUCED: harness file dropped (does not type-check against this tree):", d)
	}
	var hs []harness
	for path, p := range ld.pkgs {
		if !strings.HasPrefix(path, repoMod) {
			continue
		}
		for n, m := range p.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "V"+prop+"_") && (only == "" || strings.Contains(n, only)) {
				hs = append(hs, harness{n, f})
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	if len(hs) == 0 {
		fmt.Println("ERROR: no harness for", prop)
		return 2
	}
	var its []*Interp
	for i := 0; i < cfg.workers; i++ {
		its = append(its, newInterp(ld, cfg))
	}
	defer func() {
		for _, it := range its {
			it.solver.Close()
		}
	}()
	var jobs []*Job
	end := time.Now().Add(total)
	for i, h := range hs {
		rem := time.Until(end)
		share := rem / time.Duration(len(hs)-i)
		if share < 5*time.Second {
			share = 5 * time.Second
		}
		if n := len(hs) - i; n > 1 {
			share = min(share*2, rem*3/4)
		}
		ts := time.Now()
		j := explore(its, h.fn, h.name, share)
		j.Wall = time.Since(ts).Seconds()
		jobs = append(jobs, j)
		fmt.Printf("%-34s paths=%d (done %d, pruned %d) asserts=%d unknown=%d merges=%d steps=%d violations=%d %.1fs%s\n", h.name, j.Paths, j.PathsDone,
			j.Kinds["infeasible"], j.Asserts, j.Unknowns, j.Merges, j.Steps, len(j.Violations), j.Wall, map[bool]string{true: " BUDGET", false: ""}[j.budgetHit])
		for _, k := range sortedKeys(j.Unsup) {
			fmt.Printf("    not explored (%d paths): %s\n", j.Unsup[k], trunc(k, 500))
		}
		if cfg.verbose {
			for _, k := range sortedKeys(j.UnkWhere) {
				fmt.Printf("    undecided (%d): %s\n", j.UnkWhere[k], k)
			}
			fmt.Printf("    reached: %v\n    bounds: %v\n", j.Reached, j.Bounds)
		}
		if dump {
			for _, v := range j.Violations {
				b, _ := json.Marshal(v)
				fmt.Println("   ", string(b))
			}
		}
	}
	if cfg.verbose {
		for _, p := range sortedKeys(ld.initErr) {
			for _, m := range sortedKeys(ld.initErr[p]) {
				fmt.Printf("    init %s: %s\n", p, trunc(m, 200))
			}
		}
	}
	// native replay
	var rep *Replayer
	var validated, mismatched, diverged int
	var mismatches []string
	if !noReplay {
		rep = newReplayer(repo, verif, prop, ld, cfg)
		defer rep.cleanup()
		if err := rep.build(false); err != nil {
			fmt.Println("ERROR: cannot build native replay:", err)
			return 2
		}
		validated, mismatched, diverged, mismatches = rep.samples(jobs)
		for _, m := range mismatches {
			fmt.Println("    TRANSLATION MISMATCH:", m)
		}
	}
	// violations
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), prop)
	confirmed, unconfirmed := []*Violation{}, []*Violation{}
	seenKey := map[string]int{}
	for _, j := range jobs {
		for _, v := range j.Violations {
			if rep == nil {
				unconfirmed = append(unconfirmed, v)
				continue
			}
			key := v.Harness + v.Kind + v.Msg
			if seenKey[key] >= 1 { // one confirmed instance per site is enough
				continue
			}
			if k := known.match(v); k != nil {
				v.Known = true
				k.hit = true
				continue
			}
			ok, how := rep.confirm(v)
			v.Replayed = how
			if ok {
				seenKey[key]++
				confirmed = append(confirmed, v)
			} else {
				unconfirmed = append(unconfirmed, v)
			}
		}
	}
	for _, k := range known.list {
		if k.hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	code := 0
	for i, v := range confirmed {
		code = 1
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(map[string]any{"tier": cfg.tier, "property": prop, "kind": v.Kind, "msg": v.Msg, "where": v.Where, "schedule": v.Sched, "replayed": v.Replayed,
			"cases": []map[string]any{{"harness": v.Harness, "inputs": v.Inputs}}}, "", " ")
		os.WriteFile(f, b, 0o644)
		fmt.Printf("  %s: %s\n    at %s\n    inputs %s\n    replay: %s\n", v.Kind, v.Msg, v.Where, inputsText(v.Inputs), trunc(v.Replayed, 300))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
	}
	for _, v := range unconfirmed {
		if seenKey[v.Harness+v.Kind+v.Msg] > 0 {
			continue
		}
		fmt.Printf("  UNCONFIRMED (not reproduced natively, not reported): %s %s at %s inputs %s [%s]\n", v.Kind, v.Msg, v.Where, trunc(inputsText(v.Inputs), 600), trunc(v.Replayed, 200))
	}
	ev, vac := evidence(prop, cfg, jobs, its, ld, t0, loadS, validated, mismatched, diverged, mismatches, confirmed, unconfirmed, known)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if only == "" {
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("ERROR:", err)
			return 2
		}
	}
	if code == 0 && vac != "" {
		fmt.Println("ERROR: nothing was decided:", vac)
		return 2
	}
	if code == 0 {
		fmt.Printf("OK property=%s held on everything explored (%.1fs)\n", prop, time.Since(t0).Seconds())
	}
	return code
}

func inputsText(in []InputJSON) string {
	var parts []string
	for _, i := range in {
		v := i.Val
		if i.Dbg != "" {
			v = i.Dbg
		}
		parts = append(parts, i.Name+"="+v)
	}
	return strings.Join(parts, " ")
}

func evidence(prop string, cfg *Config, jobs []*Job, its []*Interp, ld *Loaded, t0 time.Time, loadS float64, validated, mismatched, diverged int, mism []string, conf, unconf []*Violation, known *knownSet) (map[string]any, string) {
	var paths, steps, asserts, unk, dec int64
	enc := map[string]bool{}
	hs := map[string]any{}
	samples := []any{}
	vac := ""
	complete := true
	for _, j := range jobs {
		paths += j.PathsDone
		steps += j.Steps
		asserts += j.Asserts
		unk += j.Unknowns
		dec += j.Branches
		for f := range j.Encoded {
			enc[f] = true
		}
		done := !j.budgetHit && len(j.Unsup) == 0 && j.Unknowns == 0 && j.Kinds["budget"] == 0
		if !done {
			complete = false
		}
		h := map[string]any{"paths_completed": j.PathsDone, "paths_pruned": j.Kinds["infeasible"], "assertions_discharged": j.Asserts,
			"assertion_sites": j.AssertSeen, "reached": j.Reached, "bounds": j.Bounds, "all_paths_within_bounds_explored": done, "seconds": j.Wall, "path_ends": j.Kinds}
		if len(j.Unsup) > 0 {
			h["not_explored"] = j.Unsup
		}
		if len(j.UnkWhere) > 0 {
			h["undecided_at"] = j.UnkWhere
		}
		hs[j.name] = h
		if j.PathsDone == 0 && len(j.Violations) == 0 {
			vac += j.name + ": no path completed; "
		} else if len(j.Reached) == 0 && len(j.Violations) == 0 {
			vac += j.name + ": no reachability witness; "
		}
		for i, s := range j.Samples {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": j.name, "inputs": inputsText(s.Inputs), "observed": s.Obs})
		}
	}
	// one vacuous harness among several is a reduced check; all of them an error
	nv := strings.Count(vac, ";")
	if nv < len(jobs) {
		vac = ""
	}
	var q, sat, uns, un int64
	var st time.Duration
	for _, it := range its {
		q += it.solver.Queries
		sat += it.solver.Sat
		uns += it.solver.Unsat
		un += it.solver.Unknown
		st += it.solver.Time
	}
	cov := map[string]any{
		"states": paths, "transitions": dec, "traces_validated_against_impl": validated, "samples": samples,
		"states_meaning":           "symbolic paths run to completion (each stands for every input satisfying its path condition)",
		"transitions_meaning":      "symbolic decisions (branch, value, schedule) taken on those paths",
		"ssa_instructions":         steps,
		"functions_encoded":        sortedKeys(enc),
		"assertions_discharged":    asserts,
		"queries":                  map[string]int64{"total": q, "sat": sat, "unsat": uns, "unknown": un},
		"solver_seconds":           st.Seconds(),
		"solver":                   solverBin,
		"harnesses":                hs,
		"exhaustive_within_bounds": complete,
		"translation_mismatches":   mismatched,
		"replay_diverged":          diverged,
		"load_seconds":             loadS,
	}
	if len(ld.dropped) > 0 {
		cov["reduced"] = ld.dropped
	}
	if len(mism) > 0 {
		cov["mismatch_detail"] = mism
	}
	if len(unconf) > 0 {
		cov["unconfirmed_candidates"] = len(unconf)
	}
	ev := map[string]any{"property": prop, "tier": cfg.tier, "seed": cfg.seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds()}
	if len(conf) > 0 {
		var vs []any
		for _, v := range conf {
			vs = append(vs, map[string]any{"kind": v.Kind, "msg": v.Msg, "where": v.Where, "inputs": inputsText(v.Inputs)})
		}
		cov["violations"] = vs
	}
	return ev, vac
}

// ---- known findings ----

type knownFinding struct {
	harness, kind, match, text string
	hit                        bool
}
type knownSet struct{ list []*knownFinding }

func loadKnown(file, prop string) *knownSet {
	ks := &knownSet{}
	b, err := os.ReadFile(file)
	if err != nil {
		return ks
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C01 harness=H kind=panic match="substr of msg+where" text
		if !strings.HasPrefix(l, "finding: property="+prop+" ") {
			continue
		}
		k := &knownFinding{}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" ")
		for {
			rest = strings.TrimSpace(rest)
			if strings.HasPrefix(rest, "harness=") || strings.HasPrefix(rest, "kind=") {
				f := strings.SplitN(rest, " ", 2)
				kv := strings.SplitN(f[0], "=", 2)
				if kv[0] == "harness" {
					k.harness = kv[1]
				} else {
					k.kind = kv[1]
				}
				rest = f[1]
				continue
			}
			if strings.HasPrefix(rest, "match=\"") {
				rest = rest[7:]
				i := strings.Index(rest, "\"")
				k.match = rest[:i]
				rest = rest[i+1:]
				continue
			}
			break
		}
		k.text = rest
		ks.list = append(ks.list, k)
	}
	return ks
}

func (ks *knownSet) match(v *Violation) *knownFinding {
	for _, k := range ks.list {
		if k.harness != "" && k.harness != v.Harness {
			continue
		}
		if k.kind != "" && k.kind != v.Kind {
			continue
		}
		if k.match != "" && !strings.Contains(v.Msg+" "+v.Where+" "+inputsText(v.Inputs), k.match) {
			continue
		}
		return k
	}
	return nil
}

// ---- native replay ----

type Replayer struct {
	repo, verif, prop string
	ld                *Loaded
	cfg               *Config
	dir               string
	overlay           string
	bin, binRace      string
	tty               bool
}

func newReplayer(repo, verif, prop string, ld *Loaded, cfg *Config) *Replayer {
	dir, err := os.MkdirTemp("", "vsym-replay-")
	if err != nil {
		panic(err)
	}
	r := &Replayer{repo: repo, verif: verif, prop: prop, ld: ld, cfg: cfg, dir: dir}
	for _, src := range ld.overlay {
		if b, err := os.ReadFile(src); err == nil && strings.Contains(string(b), "// replay: terminal") {
			r.tty = true
		}
	}
	return r
}

func (r *Replayer) cleanup() { os.RemoveAll(r.dir) }

func (r *Replayer) build(race bool) error {
	if r.overlay == "" {
		ov := map[string]string{}
		pk := map[string]bool{}
		for dst, src := range r.ld.overlay {
			ov[dst] = src
			rel, _ := filepath.Rel(r.repo, filepath.Dir(dst))
			if rel != "zzvsym" {
				pk[repoMod+"/"+rel] = true
			}
		}
		var sb strings.Builder
		sb.WriteString("package main\n\nimport (\n\t\"" + vsymPath + "\"\n")
		for _, p := range sortedKeys(pk) {
			if p == repoMod+"/." {
				continue
			}
			sb.WriteString("\t_ \"" + p + "\"\n")
		}
		sb.WriteString(")\n\nfunc main() { vsym.Main() }\n")
		mf := filepath.Join(r.dir, "main.go")
		if err := os.WriteFile(mf, []byte(sb.String()), 0o644); err != nil {
			return err
		}
		ov[filepath.Join(r.repo, "zzreplay", "main.go")] = mf
		b, _ := json.Marshal(map[string]any{"Replace": ov})
		r.overlay = filepath.Join(r.dir, "overlay.json")
		if err := os.WriteFile(r.overlay, b, 0o644); err != nil {
			return err
		}
	}
	out := filepath.Join(r.dir, "replay")
	args := []string{"build", "-overlay", r.overlay, "-o", out}
	if race {
		out += "-race"
		args = []string{"build", "-race", "-overlay", r.overlay, "-o", out}
	}
	if r.ld.modfile != "" {
		args = append(args, "-modfile="+r.ld.modfile)
	}
	args = append(args, "./zzreplay")
	cmd := exec.Command("go", args...)
	cmd.Dir = r.repo
	cmd.Env = os.Environ()
	if !race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=0")
	} else {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, trunc(string(b), 2000))
	}
	if race {
		r.binRace = out
	} else {
		r.bin = out
	}
	return nil
}

type caseResult struct {
	Outcome string   `json:"outcome"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
}

// run executes cases natively; it returns the results, whether it timed out,
// and the process output.
func (r *Replayer) run(bin string, cases []map[string]any, timeout time.Duration) ([]caseResult, bool, string) {
	cf := filepath.Join(r.dir, "cases.json")
	rf := filepath.Join(r.dir, "results.json")
	os.Remove(rf)
	b, _ := json.Marshal(map[string]any{"tier": r.cfg.tier, "cases": cases})
	os.WriteFile(cf, b, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin)
	if r.tty {
		// what is replayed insists on a terminal
		cmd = exec.CommandContext(ctx, "script", "-qec", bin, "/dev/null")
	}
	cmd.Dir = r.dir
	cmd.Env = append(os.Environ(), "VSYM_CASES="+cf, "VSYM_RESULTS="+rf, "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB")
	out, err := cmd.CombinedOutput()
	if ctx.Err() == context.DeadlineExceeded {
		return nil, true, string(out)
	}
	var res []caseResult
	if b, e := os.ReadFile(rf); e == nil {
		json.Unmarshal(b, &res)
	}
	if err != nil && res == nil {
		return nil, false, string(out)
	}
	return res, false, string(out)
}

func (r *Replayer) samples(jobs []*Job) (validated, mismatched, diverged int, detail []string) {
	type ref struct{ j, s int }
	var cases []map[string]any
	var refs []ref
	for ji, j := range jobs {
		for si, s := range j.Samples {
			obs := s.Obs
			if obs == nil {
				obs = []string{}
			}
			cases = append(cases, map[string]any{"harness": j.name, "inputs": s.Inputs, "obs": obs})
			refs = append(refs, ref{ji, si})
		}
	}
	if len(cases) == 0 {
		return
	}
	res, to, out := r.run(r.bin, cases, 120*time.Second)
	if to || res == nil {
		detail = append(detail, "sample replay did not finish: "+trunc(out, 600))
		return
	}
	for i, c := range res {
		switch c.Outcome {
		case "ok":
			validated++
		case "diverged":
			diverged++
			if len(detail) < 5 {
				detail = append(detail, fmt.Sprintf("%v diverged: %s (inputs %s)", cases[i]["harness"], c.Msg, inputsText(jobs[refs[i].j].Samples[refs[i].s].Inputs)))
			}
		default:
			mismatched++
			if len(detail) < 5 {
				detail = append(detail, fmt.Sprintf("%v %s: %s (inputs %s)", cases[i]["harness"], c.Outcome, trunc(c.Msg, 700), inputsText(jobs[refs[i].j].Samples[refs[i].s].Inputs)))
			}
		}
	}
	return
}

func (r *Replayer) confirm(v *Violation) (bool, string) {
	repeat := 1
	bin := r.bin
	timeout := 20 * time.Second
	if v.Kind == "race" {
		if r.binRace == "" {
			if err := r.build(true); err != nil {
				return false, "race build failed: " + err.Error()
			}
		}
		bin = r.binRace
		repeat = 400
		timeout = 60 * time.Second
	} else {
		repeat = 300 // map order and scheduling are not controlled natively
		timeout = 40 * time.Second
	}
	c := []map[string]any{{"harness": v.Harness, "inputs": v.Inputs, "repeat": repeat}}
	if v.Kind == "hang" {
		c[0]["repeat"] = 1
		timeout = 15 * time.Second
	}
	res, to, out := r.run(bin, c, timeout)
	if to {
		if v.Kind == "hang" || v.Kind == "deadlock" {
			return true, "native run did not finish within " + timeout.String()
		}
		return false, "native run timed out"
	}
	if res == nil {
		switch {
		case strings.Contains(out, "DATA RACE"), strings.Contains(out, "concurrent map"):
			return v.Kind == "race" || strings.Contains(out, "fatal error"), "native: " + trunc(out, 400)
		case strings.Contains(out, "all goroutines are asleep"):
			return true, "native: fatal error: all goroutines are asleep - deadlock!"
		case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"):
			return true, "native: " + trunc(out, 400)
		}
		return false, "native process failed: " + trunc(out, 300)
	}
	switch res[0].Outcome {
	case "assert", "panic":
		return true, "native " + res[0].Outcome + ": " + trunc(res[0].Msg, 400)
	}
	return false, "native " + res[0].Outcome + " " + res[0].Msg
}
