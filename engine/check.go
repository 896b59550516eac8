package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func (e *env) readChecks() ([]checkCfg, []finding, error) {
	var cs []checkCfg
	b, err := os.ReadFile(filepath.Join(e.verif, "checks.json"))
	if err != nil {
		return nil, nil, err
	}
	if err := json.Unmarshal(b, &cs); err != nil {
		return nil, nil, fmt.Errorf("checks.json: %v", err)
	}
	var fs []finding
	if b, err := os.ReadFile(filepath.Join(e.verif, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &fs); err != nil {
			return nil, nil, fmt.Errorf("known_findings.json: %v", err)
		}
	}
	return cs, fs, nil
}

func (e *env) check(id string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cs, fs, err := e.readChecks()
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var cfg *checkCfg
	for i := range cs {
		if cs[i].Property == id {
			cfg = &cs[i]
		}
	}
	if cfg == nil {
		fmt.Println("error: no check for", id)
		return 2
	}
	var known []finding
	for _, f := range fs {
		if f.Property == id && f.Status == "known" {
			known = append(known, f)
		}
	}
	var reports []*runReport
	loadErr := ""
	if err := e.load(); err != nil {
		loadErr = err.Error()
	} else {
		for _, h := range cfg.Harnesses {
			t := h.Quick
			if tier == "thorough" {
				t = h.Thorough
				if t.Budget == 0 {
					t = h.Quick
				}
			}
			if t.Skip {
				continue
			}
			samples := 48
			if tier == "thorough" {
				samples = 256
			}
			var rep *runReport
			func() {
				defer func() {
					if r := recover(); r != nil {
						loadErr = fmt.Sprint(r)
					}
				}()
				rep, err = e.runHarness(h, t, samples)
			}()
			if rep == nil {
				continue
			}
			reports = append(reports, rep)
			rep.print()
			if stopFirst && len(rep.confirmed) > 0 && !isKnown(known, rep.cfg.Fn, rep.confirmed[0].msg) {
				break
			}
		}
	}
	// verdict
	violations := 0
	var lines []string
	for _, f := range known {
		lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, f.What))
	}
	for _, rep := range reports {
		seen := map[string]bool{}
		for _, c := range rep.confirmed {
			if seen[c.msg] || isKnown(known, rep.cfg.Fn, c.msg) {
				continue
			}
			seen[c.msg] = true
			violations++
			dir := filepath.Join(e.verif, "replays")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, rep.cfg.Fn, violations))
			t := rep.cfg.Quick
			if tier == "thorough" && rep.cfg.Thorough.Budget > 0 {
				t = rep.cfg.Thorough
			}
			b, _ := json.MarshalIndent(map[string]interface{}{"h": rep.cfg.Fn, "in": c.v.inputs, "params": t.Params, "message": c.msg,
				"how": "bash /verif/bin/symgo.sh replay " + path}, "", " ")
			os.WriteFile(path, b, 0o644)
			lines = append(lines, fmt.Sprintf("violated in %s: %s", rep.cfg.Fn, c.msg))
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path))
		}
	}
	e.evidence(id, tier, cfg, reports, known, loadErr, violations, time.Since(t0))
	for _, l := range lines {
		fmt.Println(l)
	}
	if loadErr != "" {
		fmt.Println("not encoded:", loadErr)
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("property=%s held on everything explored (%s, %.1fs)\n", id, tier, time.Since(t0).Seconds())
	return 0
}

func isKnown(known []finding, h, msg string) bool {
	for _, f := range known {
		if f.Harness == h && f.Msg == msg {
			return true
		}
	}
	return false
}

func (e *env) evidence(id, tier string, cfg *checkCfg, reports []*runReport, known []finding, loadErr string, violations int, wall time.Duration) {
	fnset := map[string]bool{}
	var paths, forks, decs, validated, queries, unsat, sat, unk, asserts, assertsC, mism, unconf int
	var solver time.Duration
	var hs []interface{}
	var samples []interface{}
	complete := loadErr == ""
	for _, rep := range reports {
		r := rep.run
		for f := range r.Touched {
			fnset[f] = true
		}
		paths += r.Paths
		forks += r.Forks
		decs += r.Decisions
		validated += rep.validated
		queries += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unk
		asserts += r.Asserts
		assertsC += r.AssertsConst
		solver += r.SolverTime
		mism += len(rep.mismatches)
		unconf += len(rep.unconf)
		if !r.Complete || len(rep.vacuous) > 0 {
			complete = false
		}
		t := rep.cfg.Quick
		if tier == "thorough" && rep.cfg.Thorough.Budget > 0 {
			t = rep.cfg.Thorough
		}
		h := map[string]interface{}{
			"harness": rep.cfg.Fn, "what": rep.cfg.What, "outside_the_claim": rep.cfg.Outside, "bounds": t.Params, "budget_s": t.Budget,
			"paths": r.Paths, "infeasible_paths": r.Infeasible, "branch_decisions": r.Decisions, "unexplored_paths": r.Unexplored, "explored_completely": r.Complete,
			"assertions_discharged_by_solver": r.Asserts, "assertions_constant": r.AssertsConst,
			"queries": r.Queries, "sat": r.Sat, "unsat": r.Unsat, "unknown": r.Unk, "solver_errors": r.SolverErrors, "solver_s": r.SolverTime.Seconds(), "wall_s": r.Wall.Seconds(),
			"reachability_witnesses": r.Reach, "missing_witnesses": rep.vacuous, "unsupported": r.Unsupported, "lost": r.Lost,
			"traces_validated_natively": rep.validated, "trace_mismatches": uniq(rep.mismatches), "unconfirmed_counterexamples": uniq(rep.unconf),
			"confirmed_counterexamples": len(rep.confirmed), "ssa_steps": r.Steps,
		}
		hs = append(hs, h)
		if len(r.Samples) > 0 {
			k := len(r.Samples) / 2
			samples = append(samples, map[string]interface{}{"harness": rep.cfg.Fn, "inputs": inputsText(r.Samples[k].Inputs), "observed": r.Samples[k].Obs, "reached": r.Samples[k].Reach})
		}
	}
	var fns []string
	for f := range fnset {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	var kf []string
	for _, k := range known {
		kf = append(kf, k.What)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": e.seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive": complete, "functions_encoded": fns, "functions_encoded_count": len(fns),
			"harnesses": hs, "queries": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_unknown": unk, "solver_s": solver.Seconds(),
			"assertions_discharged_by_solver": asserts, "assertions_folded_to_constants": assertsC,
			"trace_mismatches": mism, "unconfirmed_counterexamples": unconf, "known_findings": kf, "not_encoded": loadErr,
			"meaning": "states = distinct feasible symbolic paths explored; transitions = branch decisions on them; an assertion is decided for all inputs of its path, by a query that its negation is unsatisfiable or, when branch queries on the path or equal terms have decided its condition already, without a further one (folded)",
		},
		"assumptions": cfg.Assumptions, "wall_s": wall.Seconds(), "violations": violations,
	}
	dir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}
