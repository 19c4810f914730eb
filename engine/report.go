package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func report(a checkArgs, t0 time.Time, hs []hinfo, results []*WorkResult, recs []*vrec, kf *findingsFile, n *native, nMis, nVal, nConc int, misMsgs []string) int {
	type hsum struct {
		Harness   string            `json:"harness"`
		What      string            `json:"what,omitempty"`
		Shards    int               `json:"shards"`
		Bounds    map[string]string `json:"bounds"`
		Paths     int64             `json:"paths"`
		Infeas    int64             `json:"paths_cut_by_assumptions"`
		States    int64             `json:"states"`
		Trans     int64             `json:"transitions"`
		Steps     int64             `json:"ssa_instructions"`
		Queries   int               `json:"queries"`
		Unsat     int               `json:"unsat"`
		SatQ      int               `json:"sat"`
		UnknownQ  int               `json:"unknown"`
		Cached    int               `json:"answered_from_cache_or_model"`
		Order     int               `json:"branches_decided_by_order_closure"`
		SolverS   float64           `json:"solver_s"`
		WallS     float64           `json:"wall_s_max"`
		Asserts   map[string]int64  `json:"assertions_checked"`
		Reached   map[string]int    `json:"reachability_witnesses"`
		Unreached []string          `json:"labels_not_reached,omitempty"`
		Reduced   map[string]int    `json:"reduced_bound,omitempty"`
		Complete  bool              `json:"complete_within_bounds"`
		Errs      []string          `json:"errors,omitempty"`
	}
	sums := map[string]*hsum{}
	var order []string
	for _, h := range hs {
		b := map[string]string{}
		for k, v := range h.opts {
			switch k {
			case "shards", "timeout", "native", "conc", "fresh", "nrepeat", "ntimeout", "harness", "depth", "env":
			default:
				b[k] = v
			}
		}
		sums[h.fn] = &hsum{Harness: h.pkg + "." + h.fn, What: h.doc, Bounds: b, Asserts: map[string]int64{}, Reached: map[string]int{}, Reduced: map[string]int{}, Complete: true}
		order = append(order, h.fn)
	}
	fns := map[string]bool{}
	models := map[string]bool{}
	var states, trans, asserts int64
	var queries, unsat, sat, unk, cross, dis, otherFns int
	var solver float64
	var samples []any
	for _, r := range results {
		s := sums[r.Harness]
		s.Shards++
		s.Paths += r.Paths
		s.Infeas += r.Killed
		s.States += r.Paths + r.Killed + r.Nodes
		s.Trans += r.Forks + r.Edges + int64(r.Merges)
		s.Steps += r.Steps
		s.Queries += r.Queries
		s.Unsat += r.Unsat
		s.SatQ += r.Sat
		s.UnknownQ += r.Unknown
		s.Cached += r.Cached
		s.Order += r.Order
		s.SolverS += r.SolverS
		if r.WallS > s.WallS {
			s.WallS = r.WallS
		}
		for k, v := range r.Asserts {
			s.Asserts[k] += v
			asserts += v
		}
		for k, v := range r.Reached {
			s.Reached[k] += v
		}
		for k, v := range r.Unsup {
			s.Reduced["not encoded: "+k] += v
			s.Complete = false
		}
		for k, v := range r.Unknowns {
			s.Reduced["solver gave no answer: "+k] += v
			s.Complete = false
		}
		if r.TimedOut {
			s.Reduced["time budget exhausted"]++
			s.Complete = false
		}
		if r.Err != "" {
			s.Errs = append(s.Errs, r.Err)
			s.Complete = false
		}
		queries += r.Queries
		unsat += r.Unsat
		sat += r.Sat
		unk += r.Unknown
		cross += r.Cross
		dis += r.Disagree
		solver += r.SolverS
		if r.OtherFns > otherFns {
			otherFns = r.OtherFns
		}
		for _, f := range r.Fns {
			fns[f] = true
		}
		for _, f := range r.Models {
			models[f] = true
		}
		k := 0
		for i := len(r.Samples) - 1; i >= 0 && k < 2 && len(samples) < 12; i-- {
			in := r.Samples[i].Inputs
			if len(in) > 24 {
				in = in[:24]
			}
			var iv []string
			for _, v := range in {
				iv = append(iv, fmt.Sprintf("%s=%d", v.Name, int64(v.Val)))
			}
			ob := r.Samples[i].Obs
			if len(ob) > 8 {
				ob = ob[:8]
			}
			samples = append(samples, map[string]any{"harness": r.Harness, "inputs": iv, "observed": ob})
			k++
		}
	}
	anyWork, anyErr := false, false
	complete := true
	var list []*hsum
	for _, fn := range order {
		s := sums[fn]
		for _, h := range hs {
			if h.fn == fn {
				for _, l := range h.labels {
					if s.Reached[l] == 0 {
						s.Unreached = append(s.Unreached, l)
					}
				}
			}
		}
		if len(s.Reduced) == 0 {
			s.Reduced = nil
		}
		if len(s.Asserts) > 0 || s.Paths > 0 {
			anyWork = true
		}
		if len(s.Errs) > 0 {
			anyErr = true
		}
		if !s.Complete || s.Shards == 0 {
			complete = false
		}
		states += s.States
		trans += s.Trans
		list = append(list, s)
	}
	if samples == nil {
		samples = []any{"no complete path was sampled"}
	}
	// violations
	outDir := filepath.Join(a.verif, "evidence", "replay")
	exit := 0
	nv := 0
	known := map[string]bool{}
	var unconf []string
	sort.SliceStable(recs, func(i, j int) bool { return recs[i].V.Harness < recs[j].V.Harness })
	for i, r := range recs {
		if !r.Confirmed {
			unconf = append(unconf, fmt.Sprintf("%s: %s: %s @ %s (native: %s)", r.V.Harness, r.V.Kind, r.V.Msg, r.V.Where, r.Native))
			continue
		}
		if k := kf.match(a.id, r.V); k != nil {
			if !known[k.What] {
				known[k.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", a.id, k.What)
			}
			continue
		}
		os.MkdirAll(outDir, 0o755)
		p := filepath.Join(outDir, fmt.Sprintf("%s_%d.json", a.id, i))
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(p, b, 0o644)
		nv++
		exit = 1
		fmt.Printf("counterexample in %s: %s: %s\n  at %s\n  native run: %s %s\n", r.V.Harness, r.V.Kind, r.V.Msg, r.V.Where, r.Native, tail(r.NativeMsg, 200))
		for _, in := range r.V.Inputs {
			if len(r.V.Inputs) > 40 {
				break
			}
			fmt.Printf("  %s = %d\n", in.Name, int64(in.Val))
		}
		for k, s := range r.V.Sched {
			if k > 60 {
				break
			}
			fmt.Printf("  schedule %d: %s\n", k, s)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", a.id, p)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	var ml []string
	for f := range models {
		ml = append(ml, f)
	}
	sort.Strings(ml)
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": nVal + nConc,
		"samples":                     samples,
		"exhaustive":                  complete,
		"complete_within_bounds":      complete,
		"harnesses":                   list,
		"functions_encoded":           fl,
		"library_functions_encoded":   otherFns,
		"models_used":                 ml,
		"assertion_instances":         asserts,
		"queries":                     queries,
		"queries_unsat":               unsat,
		"queries_sat":                 sat,
		"queries_unknown":             unk,
		"solver_s":                    solver,
		"solver":                      "z3-new (fallback z3/cvc5), unsat answers re-decided by cvc5: see cross_checked",
		"cross_checked":               cross,
		"cross_disagreements":         dis,
		"paths_replayed_exactly":      nVal,
		"native_runs_env_dependent":   nConc,
		"encoding_mismatches":         nMis,
		"unconfirmed_counterexamples": unconf,
		"rule":                        "states = explored symbolic paths and scheduler states, transitions = solver-decided forks, merges and scheduler edges; each path stands for all inputs satisfying its path condition",
	}
	if len(misMsgs) > 0 {
		if len(misMsgs) > 5 {
			misMsgs = misMsgs[:5]
		}
		cov["encoding_mismatch_samples"] = misMsgs
	}
	ev := map[string]any{
		"property": a.id, "tier": a.tier, "seed": a.seed, "level": "model_checking",
		"coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nv,
		"assumptions": assumptions(a, hs, ml),
	}
	os.MkdirAll(filepath.Join(a.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if a.only == "" {
		if err := os.WriteFile(filepath.Join(a.verif, "evidence", a.id+".json"), b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	for _, s := range list {
		st := "complete"
		if !s.Complete {
			st = "REDUCED"
		}
		fmt.Printf("%-34s %-8s paths=%d cut=%d states=%d steps=%d queries=%d unsat=%d unknown=%d solver=%.1fs wall=%.1fs\n", s.Harness, st, s.Paths, s.Infeas, s.States, s.Steps, s.Queries, s.Unsat, s.UnknownQ, s.SolverS, s.WallS)
		var ks []string
		for k, v := range s.Reduced {
			ks = append(ks, fmt.Sprintf("    reduced: %s (%d)", k, v))
		}
		sort.Strings(ks)
		if len(ks) > 12 {
			ks = append(ks[:12], "    ...")
		}
		for _, k := range ks {
			fmt.Println(k)
		}
		for _, e := range s.Errs {
			fmt.Println("    error:", e)
		}
		if len(s.Unreached) > 0 {
			fmt.Println("    labels not reached:", strings.Join(s.Unreached, ", "))
		}
	}
	fmt.Printf("%s %s: traces replayed=%d env runs=%d mismatches=%d functions=%d wall=%.1fs\n", a.id, a.tier, nVal, nConc, nMis, len(fl), time.Since(t0).Seconds())
	for _, m := range misMsgs {
		fmt.Println("    mismatch:", m)
	}
	for _, u := range unconf {
		fmt.Println("    unconfirmed:", u)
	}
	for p, e := range n.errs {
		fmt.Println("    native:", p, e)
	}
	if exit == 0 && anyErr && !anyWork {
		return 2
	}
	return exit
}

// assumptions come from lines "//sym:assume text" anywhere in the harness
// packages used, and from the models.
func assumptions(a checkArgs, hs []hinfo, models []string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(f, prefix string, only map[string]bool) {
		b, err := os.ReadFile(f)
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			if rest, ok := strings.CutPrefix(strings.TrimSpace(l), prefix); ok && !seen[rest] {
				if only != nil {
					id, t, _ := strings.Cut(rest, " ")
					if !only[id] {
						continue
					}
					rest = t
				}
				seen[rest] = true
				out = append(out, rest)
			}
		}
	}
	for _, h := range hs {
		fs, _ := filepath.Glob(filepath.Join(a.verif, "harness", h.pkg, "*.go"))
		for _, f := range fs {
			add(f, "//sym:assume ", map[string]bool{a.id: true})
		}
	}
	for _, m := range models {
		out = append(out, "stub: "+m+" (harness/models)")
	}
	if len(out) == 0 {
		out = []string{"Go semantics as implemented by the encoder (amd64, go1.27 growth rules)"}
	}
	return out
}
