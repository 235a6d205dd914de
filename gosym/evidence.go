package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// evidence writes /verif/evidence/<id>.json from what this run did.
func (c *checker) evidence(wall time.Duration, violations int, reduced []string) {
	st := &c.e.stats
	funcs := map[string]bool{}
	var paths, steps, asserts, branches, points, switches, merges, validated int64
	var hs []any
	var samples []any
	for _, r := range c.runs {
		for f := range r.run.funcs {
			if !strings.Contains(f, ".Verif_") && !strings.Contains(f, "zz") {
				funcs[f] = true
			}
		}
		paths += r.run.paths
		steps += r.run.steps
		asserts += r.run.asserts
		branches += r.run.branches
		points += r.run.points
		switches += r.run.switches
		merges += r.run.merges
		for _, n := range r.native {
			if strings.HasPrefix(n, "ok") {
				validated++
			}
		}
		var reached []string
		for l := range r.run.reached {
			reached = append(reached, l)
		}
		sort.Strings(reached)
		h := map[string]any{"harness": r.h.name, "package": r.h.pkg, "options": r.opt, "bounds": r.params, "paths": r.run.paths,
			"infeasible_or_pruned": r.run.pruned, "assertions_evaluated": r.run.asserts, "exhausted": !r.run.timedOut && len(r.run.errs) == 0,
			"goroutines_max": r.run.maxThreads, "schedule_points": r.run.points, "witnesses_reached": reached, "wall_s": round2(r.run.wall.Seconds())}
		if len(r.run.bounds) > 0 {
			h["bounds_hit"] = r.run.bounds
		}
		hs = append(hs, h)
		for i, s := range r.run.samples {
			if i < 2 && len(samples) < 12 {
				samples = append(samples, map[string]any{"harness": r.h.name, "path": s})
			}
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{"(none)"}
	}
	cov := map[string]any{
		"states":                        paths,
		"transitions":                   branches,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"exhaustive":                    len(reduced) == 0,
		"explanation": "states = symbolic paths executed to their end, transitions = symbolic branch, value and schedule decisions along them; " +
			"every assertion and every branch feasibility was decided by the SMT solver (or by exact evaluation of the constraint over its single 8-bit variable) for all inputs of the path",
		"functions_encoded":      fl,
		"functions_count":        len(fl),
		"instructions_blocks":    steps,
		"assertions_evaluated":   asserts,
		"region_merges":          merges,
		"schedule_points":        points,
		"context_switches":       switches,
		"solver":                 "z3 -in (QF_BV)",
		"solver_queries":         st.Queries,
		"solver_sat":             st.Sat,
		"solver_unsat":           st.Unsat,
		"solver_cache_hits":      st.Cached,
		"domain_decisions":       st.Domain,
		"solver_time_s":          round2(float64(st.Nanos) / 1e9),
		"harnesses":              hs,
		"reduced_bounds":         reduced,
		"encoding_regenerated":   "from the working tree of " + c.repo + " on this run (go/packages + go/ssa)",
		"encoding_load_time_s":   round2(c.e.loadWall.Seconds()),
		"repo_files_with_bodies": c.e.files,
	}
	ev := map[string]any{
		"property":    c.prop,
		"tier":        c.tier,
		"seed":        c.seed,
		"level":       "model_checking",
		"coverage":    cov,
		"assumptions": assumptions(),
		"wall_s":      round2(wall.Seconds()),
		"violations":  violations,
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), append(mustJSON(ev), '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func assumptions() []string {
	return []string{
		"bounds: only inputs within the per-harness alphabets, lengths, counts and preemption bounds listed under harnesses are claimed",
		"the executor's Go semantics (gosym), the go/ssa front end and z3 are trusted; counterexamples are replayed concretely before being reported",
		"sync, sync/atomic, channels, timers and time.Now are modelled (sequentially consistent memory; virtual clock); log output is dropped",
		"map iteration is explored in insertion order; slice growth capacities follow the model, not the allocator's size classes",
	}
}
